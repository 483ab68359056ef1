"""The open findings of known_findings.txt: the inputs that show them, and the permission the specification gives."""
import os
import re

import common

FILE = os.path.join(common.ROOT, "known_findings.txt")


def entries():
    """[(property, id, what fails)]"""
    with open(FILE) as f:
        return re.findall(r"^open: property=(\S+) id=(\S+) (.*)$", f.read(), re.M)


def constant():
    return "{%s}" % ", ".join('"%s"' % i for i in sorted({i for _, i, _ in entries()}))


def num(v):
    m, e = abs(v).as_integer_ratio()
    return repr(int(v)) if e == 1 else "%d:%d" % (m if v > 0 else -m, 1 - e.bit_length())


def table(rows):
    return [[num(float(v)) for v in r] for r in rows]


def boot(x, n):
    return {"op": "boot", "x": table(x), "sets": [["n", n], ["seed", "1"]], "via": "new"}


# (property, finding) -> calls, the last of which shows it
CALLS = {
    ("C17", "nan-level"): [{"op": "ttest", "x": table([(2, 1), (2, 0.5)]), "levels": ["NaN"]},
                           {"op": "anova", "x": table([(1, 2, 4), (2, 1, 1)]), "m": 3, "levels": ["NaN"]}],
    ("C17", "constant-differences"): [{"op": "ttest", "x": table([(0.1, 0)] * 10), "levels": []}],
    ("C12", "constant-differences"): [boot([(v, 0) for v in (9, 9, 7, 6, 9, 7)], "1000000")],
    ("C12", "rounded-ties"): [boot([(0, 0), (0.5, 0), (-0.75, 0), (0.25, 0)], "100000")],
    ("C17", "one-system"): [{"op": "tukey", "x": table([(1,), (2,)]), "m": 1}, {"op": "anova", "x": table([(1,), (2,)]), "m": 1, "levels": []}],
    ("C17", "zero-residual"): [{"op": "anova", "x": table([(1, 2), (2, 3)]), "m": 2, "levels": []}, {"op": "tukey", "x": table([(1, 2), (2, 3)]), "m": 2}],
    ("C15", "rounded-ties"): [{"op": "rtukey", "x": table([(3, 1, 0), (2, 0, 2), (3, 0, 4)]), "m": 3, "sets": [["n", "100000"], ["seed", "1"]], "via": "new"}],
}


def probes(prop):
    """[(what fails, segment)], one segment per call"""
    return [("%s: %s" % (i, what), {"kt": "str", "ev": [c]}) for p, i, what in entries() if p == prop for c in CALLS[p, i]]
