#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; "
RT = T + "trace validation of recorded API histories"
NOTE = ("Every recorded history (seeded random, adversarial and all small cases written by the bounded TLC models) is decided by TLC against "
        "the TLA+ state machine with exact rational arithmetic; nothing is claimed for inputs that were not executed. Trusts TLC, "
        "Num.java's BigInteger/BigDecimal arithmetic and the harness.")
EXTRA = {
    "C03": "Doubles are compared with exact values at 1e-12 relative.", "C04": "Doubles are compared with exact values at 1e-12 relative.",
    "C05": "Doubles are compared with exact values at 1e-12 relative.",
    "C11": "Tail probabilities are compared at 1e-9 relative, margins for levels of at least 1e-4.",
    "C12": "Exact bootstrap distribution for up to 10 differences, or 100 with few different values, compared by Bernstein's inequality (false alarm below 2e^-25 each).",
    "C13": "Tail probabilities are compared at 1e-9 relative; sums of squares with a rounding-error bound.",
    "C14": "Compared with a rounding-error bound.",
    "C15": "Exact permutation distribution for small tables, or larger ones with few different values, compared by Bernstein's inequality (false alarm below 2e^-25 each).",
    "C16": "Seeded runs are compared for equality.",
}
CLI = {"C18": (T + "trace validation of tool runs", "model_checking"), "C19": (T + "trace validation of tool runs", "model_checking"),
       "C20": (T + "trace validation of tool runs", "model_checking"), "C21": (T + "trace validation of tool runs", "model_checking"),
       "C24": (T + "trace validation of sequences of tool runs", "model_checking"),
       "C23": (T + "trace validation of tool runs under enumerated faults", "fault_enumeration")}


def main():
    ids = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
    pending = sys.argv[1:]
    checks = []
    for i in ids:
        if i in pending:
            continue
        tech, level = CLI.get(i, (RT, "model_checking"))
        note = NOTE + (" " + EXTRA[i] if i in EXTRA else "")
        if i in CLI:
            note = ("The real binaries are run on generated files (and, for C23, under every listed fault); TLC decides every run against the TLA+ "
                    "model of the tools over file contents. Nothing is claimed for files that were not generated. Trusts TLC, Num.java and the run recorder.")
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": tech, "level": level, "level_note": note})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
         "not_applicable": [{"property": i, "reason": "check under construction"} for i in pending],
         "notes": "No hooks in /repo: everything observed is public API or tool behaviour. Genuine defects found were repaired by fix: commits, listed in known_findings.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
