"""Runs of the command-line tools, and what they did, as histories for CliTrace.tla."""
import csv
import hashlib
import io
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import common
import findings
import models
from common import BUILD, ToolError

NONE = {"kind": "none"}
LIMIT = 60


# ---------------------------------------------------------------- contents
class Num(str):
    pass


def json_line(text):
    """fields of a JSON object as <<name, type, value>>"""
    def const(x):
        raise ValueError(x)
    try:
        x = json.loads(text, object_pairs_hook=lambda ps: ("obj", ps), parse_float=lambda s: ("real", s), parse_int=lambda s: ("int", s),
                       parse_constant=const)
    except ValueError:
        return {"ok": False, "f": []}
    if not isinstance(x, tuple) or x[0] != "obj":
        return {"ok": False, "f": []}
    fs = []
    for k, v in x[1]:
        if isinstance(v, str):
            fs.append([k, "str", v])
        elif isinstance(v, tuple) and v[0] in ("real", "int"):
            fs.append([k, v[0], v[1]])
        elif v is None:
            fs.append([k, "null", ""])
        elif isinstance(v, bool):
            fs.append([k, "bool", ""])
        else:
            fs.append([k, "list", ""])
    return {"ok": True, "f": fs}


def text_lines(data):
    """as BufRead::lines splits"""
    xs = data.split("\n")
    if xs and xs[-1] == "":
        xs.pop()
    return [x[:-1] if x.endswith("\r") else x for x in xs]


def content(data, t, sep=","):
    """what a file of this type says"""
    if data is None:
        return {"t": "none"}
    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError:
        return {"t": "binary"}
    if t == "lines":
        return {"t": "lines", "lines": text_lines(text)}
    if t == "jsonl":
        return {"t": "jsonl", "lines": [json_line(x) for x in text_lines(text)]}
    rows = [r for r in csv.reader(io.StringIO(text, newline=""), delimiter=sep)]
    return {"t": "csv", "sep": sep, "rows": rows}


def to_csv(rows, sep, rng=None):
    f = io.StringIO(newline="")
    w = csv.writer(f, delimiter=sep, lineterminator="\n", quoting=csv.QUOTE_MINIMAL)
    for r in rows:
        w.writerow(r)
    return f.getvalue()


def put(path, data, t, sep=","):
    if isinstance(data, str):
        data = data.encode("utf-8")
    return {"op": "put", "path": path, "data": data, "c": content(data, t, sep)}


def mark(path, t):
    """a path that is a directory, a device, below a file that is none, or missing"""
    return {"op": "put", "path": path, "data": None, "c": {"t": t}}


# ---------------------------------------------------------------- runs
def argv(bins, e):
    o = e.get("style", 0)
    if e["op"] == "convert":
        a = ["elinor-convert"]
        for v, s, l in ((e["in"], "-i", "--input-trec"), (e["out"], "-o", "--output-jsonl"), (e["kind"], "-r", "--rel-type")):
            if v != "":
                a += [(s, l)[o % 2], v]
    elif e["op"] == "evaluate":
        a = ["elinor-evaluate"]
        for v, s, l in ((e["t"], "-t", "--true-jsonl"), (e["p"], "-p", "--pred-jsonl"), (e["out"], "-o", "--output-csv")):
            if v != "":
                a += [(s, l)[o % 2], v]
        if e["tab"]:
            a.append("--tab-separator")
        if e["metrics"]:
            if o % 3 == 0:
                for m in e["metrics"]:
                    a += ["--metrics", m]
            else:
                a += ["-m"] + e["metrics"]
    else:
        a = ["elinor-compare"]
        if o % 3 == 0:
            for f in e["files"]:
                a += ["--input-csvs", f]
        elif e["files"]:
            a += ["-i"] + e["files"]
        if e["tab"]:
            a.append("--tab-separator")
        if not (e["mode"] == "pretty" and o % 2):
            a += ["--print-mode", e["mode"]]
        if not (e["nres"] == "10000" and o % 2):
            a += ["--n-resamples=" + e["nres"]]
        if not (e["niters"] == "10000" and o % 2):
            a += ["--n-iters=" + e["niters"]]
    if e["extra"]:
        a.append(e["extra"])
    return [os.path.join(bins, a[0])] + a[1:]


def slurp(path):
    try:
        if os.path.isfile(path):
            with open(path, "rb") as f:
                return f.read()
    except OSError:
        pass
    return None


def digest(*parts):
    h = hashlib.sha256()
    for x in parts:
        h.update(b"%d:" % len(x) + x)
    return h.hexdigest()[:24]


def snapshot(d):
    """everything in directory d: path -> what it is"""
    out = {}
    for at, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(at, x), d)] = "dir"
        for x in files:
            p = os.path.join(at, x)
            name = os.path.relpath(p, d)
            if name == ".stdout":
                continue
            if os.path.islink(p) or not os.path.isfile(p):
                out[name] = "other"
                continue
            with open(p, "rb") as f:
                out[name] = digest(f.read())
    return out


def rows_of(text, mode):
    rows = []
    for line in text.split("\n"):
        if line == "":
            continue
        if mode == "pretty":
            if line.startswith("+") and set(line) <= set("+-="):
                continue
            if line.startswith("|") and line.endswith("|") and len(line) > 1:
                rows.append([c.strip(" ") for c in line[1:-1].split("|")])
                continue
            rows.append([line])
        else:
            rows.append([c.strip(" ") for c in line.split("\t")])
    return rows


def run(bins, e, d):
    """Runs the tool of event e in directory d."""
    a = argv(bins, e)
    fault = e["fault"]
    limit = fault.get("limit")
    out = os.path.join(d, e["out"]) if e.get("out") else None
    log = os.path.join(d, ".stdout")
    env = {"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0", "HOME": d, "TMPDIR": d, "POLARS_MAX_THREADS": "2", "LANG": "C.UTF-8"}
    if out and os.path.isfile(out) and fault["kind"] != "none":
        os.remove(out)

    before = snapshot(d)

    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if limit is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))

    def go(stdout):
        try:
            p = subprocess.run(a, stdin=subprocess.DEVNULL, stdout=stdout, stderr=subprocess.DEVNULL, cwd=d, env=env, timeout=LIMIT, preexec_fn=pre)
            return "exit", p.returncode
        except subprocess.TimeoutExpired:
            return "hang", -1
    on = fault.get("on")
    if on == "stdout" and fault["kind"] == "full":
        with open("/dev/full", "wb") as f:
            st, code = go(f)
        size, text = 0, ""
    elif on == "stdout" and fault["kind"] == "pipe":
        r, w = os.pipe()
        os.close(r)
        try:
            st, code = go(w)
        finally:
            os.close(w)
        size, text = 0, ""
    elif on == "out":
        # only the output file is short of space: the standard output is drained by a pipe
        try:
            p = subprocess.run(a, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=d, env=env, timeout=LIMIT, preexec_fn=pre)
            st, code, size, text = "exit", p.returncode, len(p.stdout), p.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            st, code, size, text = "hang", -1, 0, ""
    else:
        with open(log, "wb") as f:
            st, code = go(f)
        data = slurp(log) or b""
        size, text = len(data), data.decode("utf-8", "replace")
    after = snapshot(d)
    norm = os.path.normpath
    names = {norm(p): p for p in e.get("files", [e.get("in", ""), e.get("t", ""), e.get("p", "")]) if p}
    touched = sorted(names.get(p, p) for p in set(before) | set(after) if before.get(p) != after.get(p) and not (e.get("out") and p == norm(e["out"])))
    r = {"st": st, "code": code, "rows": rows_of(text, e.get("mode", "raw")), "size": size, "outsize": 0, "out": {"t": "none"},
         "touched": touched, "digest": digest(text.encode())}
    if out:
        data = slurp(out)
        r["digest"] = digest(text.encode(), data or b"")
        r["outsize"] = len(data) if data is not None else 0
        r["out"] = content(data, "jsonl") if e["op"] == "convert" else content(data, "csv", "\t" if e["tab"] else ",")
    return r


def play(bins, seg, d):
    """Executes a segment in the fresh directory d; the segment's faults given as fractions are resolved here."""
    os.makedirs(d)
    sizes = {}
    evs = []
    written = set()
    try:
        for e in seg["ev"]:
            e = dict(e)
            if e["op"] == "put":
                data = e.pop("data")
                p = os.path.join(d, e["path"])
                t = e["c"]["t"]
                if t in ("device", "noparent"):
                    pass
                elif t == "dir":
                    os.makedirs(p, exist_ok=True)
                elif t == "none":
                    if os.path.exists(p):
                        os.remove(p)
                else:
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "wb") as f:
                        f.write(data)
                evs.append(e)
                written.discard(e["path"])
                continue
            style = e.pop("style", 0)
            # what is to come of it depends on what a tool wrote
            if written & set(e.get("files", [e.get("in"), e.get("t"), e.get("p")])):
                e["expect"] = ""
            if e.get("out"):
                written.add(e["out"])
            key = json.dumps({k: v for k, v in e.items() if k not in ("fault", "expect", "lib", "libq")}, sort_keys=True)
            f = e["fault"]
            if f["kind"] == "sweep":      # all sizes below that of the complete output, or every step-th
                if key not in sizes:
                    continue
                whole = sizes[key][0 if f["on"] == "stdout" else 1]
                at = sorted({0, 1, whole - 1, *range(f["from"], whole, f["step"])} & set(range(whole)))
                fs = [{"kind": "limit", "on": f["on"], "limit": n} for n in at]
            else:
                fs = [f]
            for f in fs:
                x = dict(e, fault=f)
                r = run(bins, dict(x, style=style), d)
                if f["kind"] == "none" and r["code"] == 0:
                    sizes[key] = (r["size"], r["outsize"])
                evs.append(dict(x, r=r))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return dict(seg, ev=evs)


# ---------------------------------------------------------------- the library's own answers
def library(segs, work):
    """Attaches lib to every convert and evaluate event that asks for it (libq: harness calls)."""
    script = []
    at = []
    for s in segs:
        for e in s["ev"]:
            q = e.pop("libq", None)
            if q:
                script.append({"seg": len(script) + 1, "kt": "str", "ev": q})
                at.append(e)
            elif e["op"] in ("convert", "evaluate"):
                e["lib"] = {"st": "none"}
    if not script:
        return
    a, b = os.path.join(work, "lib.ndjson"), os.path.join(work, "lib.log")
    with open(a, "w") as f:
        for x in script:
            f.write(json.dumps(x) + "\n")
    common.run_harness(a, b, script)
    got = {}
    with open(b) as f:
        for line in f:
            x = json.loads(line)
            got[x["seg"]] = x["ev"]
    for i, e in enumerate(at):
        evs = got.get(i + 1, [])
        if len(evs) < len(script[i]["ev"]):
            e["lib"] = {"st": "none"}
        elif e["op"] == "convert":
            e["lib"] = evs[0]["r"] if evs[0]["r"]["st"] == "ok" else {"st": evs[0]["r"]["st"]}
        else:
            ok = all(x["r"]["st"] == "ok" for x in evs if x["op"] != "eval")
            e["lib"] = {"st": "ok" if ok else "error", "evals": [x["r"] for x in evs if x["op"] == "eval"]}


DEFAULT = ["success@1", "success@5", "success@10", "recall@5", "recall@10", "recall@15", "recall@20", "precision@5", "precision@10",
           "precision@15", "precision@20", "ap@5", "ap@10", "ap@15", "ap@20", "ap", "rr", "ndcg@5", "ndcg@10", "ndcg@15", "ndcg@20"]


def evals(metrics):
    out = []
    for i, m in enumerate(metrics or DEFAULT):
        name, _, k = m.partition("@")
        out.append({"op": "eval", "t": "t", "p": "p", "m": name, "k": k or "0", "as": "e%d" % i})
    return out


# ---------------------------------------------------------------- generators
IDS = ["q1", "q10", "q2", "1", "01", "10", "2", "Ä", "a b", "a,b", 'a"b', "", "x;y", "日本", "a\tb", "z", "1.0", "1e1", "null", "true", "NaN", "-", "#c", "a\nb",
       "q'", "😀", "\u00e9", "e\u0301", "A", "a", "\\", "/", " q1", "q1 ", "Q1", "q1\u00a0", "q1@", "+1"]
TREC_IDS = [x for x in IDS if x and not any(c.isspace() for c in x)] + ["\ufeffq1"]
# no empty line inside a quoted cell and no cell that the pretty printer would split
TOPICS = [x for x in IDS]
NAMES = ["hits", "success", "precision", "recall", "f1", "r_precision", "ap", "rr", "bpref", "dcg", "ndcg", "dcg_burges", "ndcg_burges"]


def jstr(rng, s):
    return json.dumps(s, ensure_ascii=rng.random() < 0.5)


def jobj(rng, q, d, x):
    fs = [('"query_id"', jstr(rng, q)), ('"doc_id"', jstr(rng, d)), ('"score"', x)]
    if rng.random() < 0.3:
        rng.shuffle(fs)
    sp = lambda: rng.choice(["", "", "", " ", "  "])
    return "{" + ",".join(sp() + k + sp() + ":" + sp() + v + sp() for k, v in fs) + "}"


def metrics(rng, n, names=NAMES):
    out, seen = [], set()
    while len(out) < n:
        m = rng.choice(names)
        k = rng.choice([0, 0, 1, 2, 3, 5, 10, 100])
        name = m if k == 0 or m in ("r_precision", "bpref") else "%s@%d" % (m, k)
        if name in seen:
            continue
        seen.add(name)
        out.append(m if k == 0 and rng.random() < 0.8 else m if m in ("r_precision", "bpref") else "%s@%d" % (m, k))
    return out


def relevance(rng, ids, nq=None, nd=None):
    """true and pred records: (q, d, score)"""
    nq = nq or rng.randint(1, 5)
    qs = rng.sample(ids, min(len(ids), nq))
    ds = rng.sample(ids, nd or rng.randint(1, 9))
    t, p = [], []
    for i, q in enumerate(qs):
        judged = rng.sample(ds, rng.randint(1, len(ds)))
        t += [(q, d, rng.choice([0, 0, 1, 1, 2, 3])) for d in judged]
        if i == 0 or rng.random() < 0.8:
            p += [(q, d, rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8]) / 4 * rng.choice([1, 1, 1, -1, 100])) for d in rng.sample(ds, rng.randint(1, len(ds)))]
    rng.shuffle(t)
    rng.shuffle(p)
    return t, p


def raise_some(rng, t):
    """large judgments; the metrics that stay within a double"""
    top = rng.choice([7, 30, 1000, 65536, 2147483647])
    return [(q, d, top if rng.random() < 0.3 else x) for q, d, x in t], [m for m in NAMES if top <= 1000 or "burges" not in m]


def many(rng, docs):
    """a thousand documents in one of three queries, or a thousand queries"""
    qs = ["q1", "q10", "q2"] if docs else ["q%d" % j for j in range(1100)]
    ds = ["d%d" % j for j in range(1100 if docs else 3)]
    t = [(q, d, rng.choice([0, 1, 1, 2])) for q in qs for d in (ds if docs else rng.sample(ds, 2)) if not docs or q == "q1" or rng.random() < 0.2]
    p = [(q, d, rng.randint(0, 9000) / 4) for q in qs for d in (ds if docs else rng.sample(ds, 2)) if not docs or q == "q1" or rng.random() < 0.2]
    p = [x for x in p if x[0] in {y[0] for y in t}]
    rng.shuffle(t)
    rng.shuffle(p)
    return t, p


def pred_text(rng, x):
    if x == int(x) and rng.random() < 0.3:
        return str(int(x))
    return rng.choice([repr(x), "%.3f" % x, "%.6e" % x])


def from_ev(kind, recs, name):
    return {"op": "from", "kind": kind, "recs": [[q, d, frac(x)] for q, d, x in recs], "as": name}


def frac(x):
    if isinstance(x, int):
        return str(x)
    n, d = float(x).as_integer_ratio()
    return str(n) if d == 1 else "%d:%d" % (n, -(d.bit_length() - 1))


def ev_evaluate(t, p, ms, out="", tab=False, libq=None, style=0, fault=NONE, extra="", expect=""):
    e = {"op": "evaluate", "t": t, "p": p, "metrics": ms, "out": out, "tab": tab, "extra": extra, "fault": fault, "expect": expect, "style": style}
    if libq:
        e["libq"] = libq
    return e


def ev_convert(i, o, kind, libq=None, style=0, fault=NONE, extra="", expect=""):
    e = {"op": "convert", "in": i, "out": o, "kind": kind, "extra": extra, "fault": fault, "expect": expect, "style": style}
    if libq:
        e["libq"] = libq
    return e


def ev_compare(files, tab=False, mode="raw", nres="10000", niters="10000", style=0, fault=NONE, extra="", expect=""):
    return {"op": "compare", "files": files, "tab": tab, "mode": mode, "nres": nres, "niters": niters, "extra": extra, "fault": fault, "expect": expect,
            "style": style}


def jsonl(rng, recs, kind):
    text = "\n".join(jobj(rng, q, d, str(x) if kind == "true" else pred_text(rng, x)) for q, d, x in recs)
    nl = "\r\n" if rng.random() < 0.1 else "\n"
    return text.replace("\n", nl) + (nl if rng.random() < 0.9 else "")


def c18(rng, i):
    ids = rng.sample(IDS, rng.randint(9, len(IDS)))
    if i % 50 == 7:      # files well beyond the size of a buffer
        t, p = relevance(rng, ["%s%d" % (rng.choice("qQd") * rng.choice([1, 1, 50]), n) for n in range(120)] + ["x" * 70000], 120, 24)
    elif i in (23, 73):
        t, p = many(rng, i == 23)
    else:
        t, p = relevance(rng, ids, None if i % 17 else 25)
    names = NAMES
    if rng.random() < 0.2:
        t, names = raise_some(rng, t)
    evs = [put("t.jsonl", jsonl(rng, t, "true"), "jsonl"), put("p.jsonl", jsonl(rng, p, "pred"), "jsonl")]
    for _ in range(2):
        ms = [] if rng.random() < 0.15 else metrics(rng, rng.randint(1, 6), names)
        if ms and rng.random() < 0.15:      # asked for twice, in one way or two
            x = rng.choice(ms)
            ms.insert(rng.randrange(len(ms) + 1), x if "@" in x or x in ("r_precision", "bpref") or rng.random() < 0.5 else x + "@0")
        twice = len({x.replace("@0", "") if x.endswith("@0") else x for x in ms}) < len(ms)
        out = "" if twice else rng.choice(["", "o.csv", "o2.csv"])
        if out and rng.random() < 0.3:
            evs.append(put(out, "old,content\n" * 200, "csv"))
        evs.append(ev_evaluate("t.jsonl", "p.jsonl", ms, out, rng.random() < 0.4, [from_ev("true", t, "t"), from_ev("pred", p, "p")] + evals(ms),
                               rng.randrange(6), expect="ok"))
    return evs


def trec(rng, recs, kind):
    lines = []
    for n, (q, d, x) in enumerate(recs):
        sp = lambda: rng.choice([" ", "\t", "  ", " \t"])
        if kind == "true":
            s = rng.choice(["%d", "%d", "+%d", "0%d"]) % x if x > 0 else rng.choice(["0", "-1", "-2", "00", "+0"])
            t = [q, "0", d, s] + (["more"] if rng.random() < 0.1 else [])
        else:
            t = [q, "Q0", d, str(n), x if isinstance(x, str) else pred_text(rng, x)] + (["tag"] if rng.random() < 0.9 else [])
        line = sp().join(t)
        if rng.random() < 0.1:
            line = rng.choice([" " + line, line + " ", "\t" + line])
        lines.append(line)
    nl = "\r\n" if rng.random() < 0.1 else "\n"
    return nl.join(lines) + (nl if rng.random() < 0.9 else "")


WILD = ["1e-300", "5e-324", "-0.0", "1e308", "0.1", "0.30000000000000004", "123456789.123456789", "-7.5E-3", "2.2250738585072014e-308", "1", "9007199254740993", "1.7976931348623157e308"]


def c19(rng, i):
    ids = rng.sample(TREC_IDS, rng.randint(9, len(TREC_IDS)))
    if i % 60 == 7:
        t, p = relevance(rng, ["%s%d" % (rng.choice("qQd") * rng.choice([1, 1, 50]), n) for n in range(120)] + ["x" * 3000], 120, 24)
    elif i in (23, 73):
        t, p = many(rng, i == 23)
    else:
        t, p = relevance(rng, ids, None if i % 11 else 20)
    names = NAMES
    if rng.random() < 0.2:
        t, names = raise_some(rng, t)
    if rng.random() < 0.5:
        p = [(q, d, rng.choice(WILD) if rng.random() < 0.5 else x) for q, d, x in p]
    if rng.random() < 0.3:      # a byte order mark is part of the id
        t.sort(key=lambda x: x[0][0] != "\ufeff")
        p.sort(key=lambda x: x[0][0] != "\ufeff")
    tt, pt = trec(rng, t, "true"), trec(rng, p, "pred")
    evs = [put("t.trec", tt, "lines"), put("p.trec", pt, "lines")]
    if rng.random() < 0.4:
        evs += [put("t.jsonl", "old content\n" * 2000, "lines"), put("p.jsonl", "old\n", "lines")]
    tq = {"op": "trec", "kind": "true", "lines": text_lines(tt), "as": "t"}
    pq = {"op": "trec", "kind": "pred", "lines": text_lines(pt), "as": "p"}
    evs.append(ev_convert("t.trec", "t.jsonl", "true", [tq], rng.randrange(2), expect="ok"))
    evs.append(ev_convert("p.trec", "p.jsonl", "pred", [pq], rng.randrange(2), expect="ok"))
    ms = metrics(rng, 4, names)
    evs.append(ev_evaluate("t.jsonl", "p.jsonl", ms, "o.csv", False, [tq, pq] + evals(ms), expect="ok"))
    return evs


def number(rng, x):
    """a way to write a double"""
    c = [repr(x), repr(x), "%.4f" % x if float("%.4f" % x) == x else repr(x), "%e" % x if float("%e" % x) == x else repr(x)]
    if x == int(x):
        c.append(str(int(x)))
    return rng.choice(c)


def spread(xs):
    if len(xs) < 2:
        return False
    m = sum(xs) / len(xs)
    return sum((x - m) ** 2 for x in xs) > 1e-5 * max(1e-300, max(x * x for x in xs))


def residual(rows):
    n, k = len(rows), len(rows[0])
    rm = [sum(r) / k for r in rows]
    cm = [sum(r[i] for r in rows) / n for i in range(k)]
    g = sum(rm) / n
    e = sum((rows[j][i] - rm[j] - cm[i] + g) ** 2 for j in range(n) for i in range(k))
    return e > 1e-5 * max(1e-300, max(x * x for r in rows for x in r))


COLS = ["f1", "recall@1000", "bpref", "hits", "System_1", "Metric",
        "ap", "precision@3", "ndcg@10", "rr", "m 1", "a,b", "Ä", "1", "system_1", "system_2", "right", "m_right"]


def tables(rng, k, fits, size=0, wide=0):
    """scores[metric][topic][system] of k files, every common metric computable"""
    header = rng.choice(["query_id", "topic", "topic_id", "q,id", "Metric", "system"])
    n = rng.randint(2, {1: 12, 2: 8, 3: 6, 4: 4}.get(k, 5)) if fits else rng.randint(2, 25)
    n = max(n, 3) if k == 2 and rng.random() < 0.7 else n
    coarse = fits and rng.random() < 0.25      # many topics, few different scores
    if coarse:
        n = rng.choice([11, 16, 20, 31, 32, 50, 64] if k < 4 else [6, 10])
    if size:
        n = size
    topics = rng.sample(TOPICS, n) if n < len(TOPICS) else TOPICS + ["t%d" % i for i in range(n - len(TOPICS))]
    number_like = rng.random() < 0.2
    if number_like:
        # topics that are numbers: equal ones written differently, and beyond the precision of a double
        pool = [w % x for x in range(n) for w in ("%d", "0%d", "%d.0", "+%d", "00%d")] + ["1e1", "-1", "9007199254740992", "9007199254740993", "18446744073709551616"]
        topics = rng.sample(pool[:2 * n] + pool[-5:], n)
    if size and rng.random() < 0.5:
        # the first rows hold numbers, the last one does not
        topics = ["%d" % (7 * x) for x in range(n - 1)] + ["q1"]
    cols = rng.sample(COLS, wide or rng.randint(1, 4))
    scale = rng.choice([1, 1, 1, 4, 40, 100000]) if not fits else rng.choice([1, 1, 2])
    data = {}
    for c in cols:
        while True:
            if coarse:
                x = [[rng.randint(0, 2) / 2 for _ in range(k)] for _ in topics]
            elif fits:
                x = [[rng.randint(0, 16) * scale / 16 for _ in range(k)] for _ in topics]
            else:
                x = [[round(rng.random() * scale, rng.choice([1, 3, 8])) for _ in range(k)] for _ in topics]
            if rng.random() < 0.3:
                x = [[min(scale, v + (i == 0) * scale / 4) for i, v in enumerate(r)] for r in x]
            if k == 1 or k == 2 and spread([r[0] - r[1] for r in x]) or k > 2 and residual(x):
                break
        data[c] = x
    files = []
    for i in range(k):
        mine = [c for c in cols if c == cols[0] or rng.random() < (0.97 if wide else 0.75)]
        own = [c for c in rng.sample(COLS, 2) if c not in cols] if rng.random() < 0.3 else []
        if rng.random() < 0.4:
            # names around those of the other files
            near = {rng.choice([c + "@10", c + "x", c[:-1].strip(), c.upper(), c.lower(), c + c]) for c in rng.sample(cols, min(2, len(cols)))}
            own += sorted(c for c in near if c and c not in cols and c not in own and c != header)
        if rng.random() < 0.5:
            rng.shuffle(mine)
        allc = mine + own
        if own:
            rng.shuffle(allc)
        order = list(range(n))
        if rng.random() < 0.7 and topics[-1:] != ["q1"]:
            rng.shuffle(order)
        rows = [[header] + allc]
        for t in order:
            rows.append([topics[t]] + [number(rng, data[c][t][i]) if c in data else number(rng, rng.randint(0, 8) / 8) for c in allc])
        files.append(rows)
    return files


def iters(rng):
    return rng.choice(["10000", "10000", "1000", "999", "50", "7", "1", "0", "3", "100"])


def fix_empty(rows):
    """an empty topic id is written as an empty quoted cell (as the tools do)"""
    return rows


def csv_text(rows, sep, rng):
    out = []
    for i, r in enumerate(rows):
        cells = []
        for j, c in enumerate(r):
            quote = c == "" or any(x in c for x in ('"', sep, "\n", "\r"))
            if j > 0 and i > 0:
                quote = False
            cells.append('"' + c.replace('"', '""') + '"' if quote else c)
        out.append(sep.join(cells))
    nl = "\r\n" if rng.random() < 0.1 and not any("\n" in c for r in rows for c in r) else "\n"
    return nl.join(out) + (nl if rng.random() < 0.9 else "")


def compare_case(rng, k, size=0, wide=0):
    fits = rng.random() < 0.75 and not size
    tab = rng.random() < 0.4
    files = tables(rng, k, fits, size, wide)
    names = rng.sample(["a.csv", "b.csv", "c.csv", "d e.csv", "Ä.tsv", "x.y", "1", "x/run.csv", "y/run.csv", "./z.csv", "x/../w.csv"] + ["s%d" % j for j in range(k - 4)], k)
    evs = []
    for f, rows in zip(names, files):
        evs.append(put(f, csv_text(rows, "\t" if tab else ",", rng), "csv", "\t" if tab else ","))
    for mode in ["raw", "pretty"] if rng.random() < 0.5 else [rng.choice(["raw", "pretty"])]:
        evs.append(ev_compare(names, tab, mode, iters(rng), iters(rng), rng.randrange(6), expect="ok"))
    if rng.random() < 0.3 and k > 1:
        perm = rng.sample(names, k)
        evs.append(ev_compare(perm, tab, rng.choice(["raw", "pretty"]), "100", "100", rng.randrange(6)))
    return evs


def pipeline(rng, k):
    """evaluate several systems, then compare what was written"""
    ids = rng.sample(IDS, 14)
    t, _ = relevance(rng, ids, 6)
    qs = sorted({q for q, _, _ in t})
    ds = sorted({d for _, d, _ in t})
    evs = [put("t.jsonl", jsonl(rng, t, "true"), "jsonl")]
    ms = metrics(rng, 3)
    tab = rng.random() < 0.4
    names = []
    for i in range(k):
        p = [(q, d, rng.randint(0, 40) / 8) for q in qs for d in rng.sample(ds, rng.randint(1, len(ds)))]
        rng.shuffle(p)
        evs.append(put("p%d.jsonl" % i, jsonl(rng, p, "pred"), "jsonl"))
        names.append("s%d" % i)
        evs.append(ev_evaluate("t.jsonl", "p%d.jsonl" % i, rng.sample(ms, 3), names[-1], tab, expect="ok"))
    evs.append(ev_compare(names, tab, rng.choice(["raw", "pretty"]), iters(rng), iters(rng), expect="ok"))
    return evs


def c20(rng, i):
    if i % 6 == 5:
        return pipeline(rng, 2)
    return compare_case(rng, 1 if i % 8 == 7 else 2, {20: 130, 60: 300, 100: 1100, 7: 130, 47: 1100}.get(i, 0),
                        {14: 18, 15: 18, 42: 14}.get(i, 0))


def c21(rng, i):
    if i % 6 == 5:
        return pipeline(rng, rng.randint(3, 4))
    k, size = {10: (3, 130), 40: (4, 300), 70: (3, 1100), 20: (11, 2), 50: (12, 3)}.get(i, (rng.choice([3, 3, 3, 4, 4, 5]), 0))
    return compare_case(rng, k, size, {13: 18, 14: 13}.get(i, 0))


def c24(rng, i):
    """runs of the other generators, and then the same ones again: in another order, with other spellings of the options, to other
    destinations, over old contents, and on copies of the files"""
    n = {36: 7, 43: 23, 48: 23, 54: 73, 73: 73}.get(i, rng.choice([1, 1, 17, 22]))      # many lines, long ids, many records
    evs = [c18, c19, c18, lambda r, n: compare_case(r, 1, rng.choice([0, 0, 130])), c19, lambda r, n: pipeline(r, rng.randint(1, 3))][i % 6](rng, n)
    files = {}
    runs = []
    for e in evs:
        if e["op"] == "put":
            files[e["path"]] = e
        else:
            e.pop("libq", None)
            runs.append((e, dict(files)))
            if e.get("out"):
                files.pop(e["out"], None)
    again = []
    for n, (e, at) in enumerate(rng.sample(runs, len(runs)) + rng.sample(runs, len(runs))):
        e = dict(e, style=rng.randrange(2 if e["op"] == "convert" else 6))
        for k in ("in", "t", "p"):
            if e.get(k) and rng.random() < 0.3 and at.get(e[k], {}).get("data") is not None:
                p = "copy%d/%s" % (n, os.path.basename(e[k]))
                again.append(dict(at[e[k]], path=p))
                e[k] = p
        if e.get("out"):
            x = rng.random()
            if x < 0.3:
                e["out"] = rng.choice(["o.csv", "new", "a b"])
            if x < 0.5:
                again.append(put(e["out"], rng.choice(["old content\n" * 5000, "", "\n", "x"]), "lines"))
            elif x < 0.6:
                e["out"] = "sub/" + os.path.basename(e["out"])
                again.append(put(e["out"], "old", "lines"))
        again.append(dict(e, expect=""))
    return evs + again


GEN = {"C18": c18, "C19": c19, "C20": c20, "C21": c21, "C24": c24}
COUNT = {"C24": (150, 1500), "C18": (300, 3000), "C19": (240, 2400), "C20": (150, 1500), "C21": (100, 1000), "C23": (1, 1)}


def script(prop, seed, n, scenarios, thorough):
    import faults
    segs = faults.segments(prop, random.Random("%s-%d" % (prop, seed)), scenarios, thorough)
    if prop == "C23":
        return segs
    for i in range(n):
        rng = random.Random("%s-%d-%d" % (prop, seed, i))
        segs.append({"ev": GEN[prop](rng, i)})
    return segs


# ---------------------------------------------------------------- the check
def cfg(prop):
    return 'INIT TInit\nNEXT TNext\nALIAS Where\nCONSTANTS\n  Focus = {"%s"}\n  Open = %s\n' % (prop, findings.constant())


def record(segs, work):
    bins = os.path.join(BUILD, "bin")
    base = os.path.join(work, "run")
    os.makedirs(base, exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        out = list(ex.map(lambda s: play(bins, s, os.path.join(base, str(s["seg"]))), segs))
    library(out, work)
    return out


def plain(seg):
    """for a replay file: the segment without results"""
    evs = []
    for e in seg["ev"]:
        e = dict(e)
        e.pop("r", None)
        if "data" in e and e["data"] is not None:
            e["data"] = e["data"].hex()
        evs.append(e)
    return {"seg": seg["seg"], "ev": evs}


def write_log(path, segs):
    with open(path, "w") as f:
        for s in segs:
            f.write(json.dumps(s) + "\n")


def judge(prop, segs, work, timeout):
    """(segment index, position) of a rejected history, or None"""
    log = os.path.join(work, "log.ndjson")
    write_log(log, segs)
    t = common.tlc("CliTrace", cfg(prop), {"TRACE_LOG": log}, work, timeout)
    if t.ok:
        return t, None
    if not t.deadlock or not t.where:
        raise ToolError("TLC failed:\n" + t.out[-6000:])
    return t, (t.where[0] - 1, t.where[1])


def say(e):
    d = {k: v for k, v in e.items() if k not in ("lib",)}
    x = json.dumps(d, ensure_ascii=False)
    return x if len(x) < 3000 else x[:3000] + "..."


def report(prop, source, recorded, pos):
    d = os.path.join(BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, source["seg"]))
    with open(path, "w") as f:
        json.dump({"property": prop, "cli": True, "how": "python3 /verif/check.py --replay " + path, "position": pos, "segment": plain(source),
                   "observed": recorded["ev"][:pos]}, f, indent=1)
    print("the specification does not allow this run: " + say(recorded["ev"][pos - 1]))
    print("VIOLATION property=%s replay=%s" % (prop, path))


def prepare(segs):
    """deep copy, as the harness scripts are taken out of the events"""
    return [{"seg": s["seg"], "ev": [dict(e) for e in s["ev"]]} for s in segs]


def replay(r):
    work = os.path.join(BUILD, "work", "replay-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        common.build_num()
        common.build_harness()
        common.build_cli()
        seg = r["segment"]
        for e in seg["ev"]:
            if isinstance(e.get("data"), str):
                e["data"] = bytes.fromhex(e["data"])
        got = record(prepare([seg]), work)
        t, bad = judge(r["property"], got, work, 300)
        if bad is None:
            print("accepted")
            return 0
        report(r["property"], seg, got[0], bad[1])
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


ASSUMPTIONS = [
    "the specification (spec/Cli.tla and the modules it extends) says what the documentation means",
    "TLC, its CommunityModules and Java's BigInteger/BigDecimal arithmetic (Num.java) are right",
    "Python's csv and json modules read the output files as they are meant",
]


def check(prop, tier, seed, work):
    start = time.time()
    thorough = tier == "thorough"
    common.build_num()
    common.build_cli()
    if prop in ("C18", "C19"):
        common.build_harness()
    scenarios, facts = models.run(prop, thorough, work)
    segs = script(prop, seed, COUNT[prop][thorough], scenarios, thorough)
    for i, s in enumerate(segs):
        s["seg"] = i + 1
    got = record(prepare(segs), work)
    bad = 0
    generated = distinct = 0
    step = 400
    for a in range(0, len(got), step):
        t, where = judge(prop, got[a:a + step], work, 4 * 3600 if thorough else 600)
        generated += t.generated
        distinct += t.distinct
        if where is not None:
            i = a + where[0]
            _, again = judge(prop, [got[i]], work, 300)
            if again is None:
                raise ToolError("TLC rejects segment %d among others and accepts it alone" % (i + 1))
            report(prop, segs[i], got[i], again[1])
            bad = 1
            break
    runs = {}
    n = disturbed = must_fail = 0
    seen = set()
    for s in got:
        files = {}
        for e in s["ev"]:
            if e["op"] == "put":
                files[e["path"]] = json.dumps(e["c"], sort_keys=True)
                continue
            n += 1
            c = "exit 0" if e["r"]["code"] == 0 else "non-zero exit"
            runs.setdefault(e["op"], {}).setdefault(c, 0)
            runs[e["op"]][c] += 1
            disturbed += e["fault"]["kind"] != "none"
            must_fail += e["expect"] == "fail"
            if e["fault"]["kind"] != "none" or e["expect"] == "fail":
                seen.add(json.dumps([{k: v for k, v in e.items() if k not in ("r", "lib")}, sorted(files.items())], sort_keys=True))
    samples = []
    for i in (0, len(got) // 2, len(got) - 1):
        e = [x for x in got[i]["ev"] if x["op"] != "put"][-1]
        samples.append({"segment": got[i]["seg"], "run": say({k: v for k, v in e.items() if k != "r"}), "exit": e["r"]["code"], "rows": say({"rows": e["r"]["rows"]})[:800]})
    cov = {"states": distinct + sum(f["states"] for f in facts), "transitions": generated + sum(f["transitions"] for f in facts),
           "traces_validated_against_impl": 0 if bad else len(got), "tool_runs": n, "exits": runs, "models": facts, "samples": samples}
    level = "model_checking"
    if prop == "C23":
        level = "fault_enumeration"
        cov.update(evaluations=n, distinct_nontrivial=len(seen), runs_disturbed=disturbed, runs_that_must_fail=must_fail,
                   rule="every scenario of spec/MC_Faults.tla (tool x defect of an input or option x position; tool x output fault x point) on seeded base files; "
                        "non-trivial: the run was disturbed or its input or options are invalid; distinct: by arguments, files and fault")
    common.write_evidence(prop, tier, seed, level, cov, time.time() - start, bad, ASSUMPTIONS)
    print("%s: %d runs of the tools in %d histories; %s" % (prop, n, len(got), "rejected" if bad else "all accepted by the specification"))
    return bad
