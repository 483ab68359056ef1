"""Scripts of spec/MC_Faults.tla for the real tools: contents as bytes, sweeps as runs."""
import json
import random

import cli

GARBAGE = ["", "{", '{"query_id":"q1","doc_id":"d1","score":1', "[1,2]", "null", "q1 0 d1 1", '{"query_id":"q1","doc_id":"d1","score":1}}',
           "{'query_id':'q1','doc_id':'d1','score':1}", '{"query_id":"q1","doc_id":"d1","score":NaN}', '"x"', '{"query_id":"q1","doc_id":"d1","score":01}'] + ['{"query_id":"q%d","doc_id":"d%d","score":1}%s' % (q, d, x) for q, d, x in (
    (1, 7, "}"), (2, 7, ","), (1, 8, " x"), (2, 8, "]"), (1, 9, '{"query_id":"q2","doc_id":"d9","score":1}'), (2, 9, "\t0"))]
# mostly what would do if the wrong bytes were replaced or skipped
BINARY = {"t.trec": [b"q1 0 d1\xff 1\n", b"q1 0 d1 1\nq\xc3\x28 0 d1 2\n", b"\xef\xbf 0 d1 1\n"],
          "p.trec": [b"q1 Q0 d\xed\xa0\x80 1 0.5 r\n", b"q1 Q0 d1 1 0.5 r\xff\n", b"q1 Q0 d1 1 0.5 r\n\xffq Q0 d1 2 0.25 r\n"],
          "t.jsonl": [b'{"query_id":"q1","doc_id":"d\xff","score":1}\n{"query_id":"q2","doc_id":"d1","score":1}\n',
                      b'{"query_id":"q1","doc_id":"d1","score":1}\n{"query_id":"q2","doc_id":"d1","score":1}\n{"query_id":"q\xc3\x28","doc_id":"d1","score":1}\n'],
          "p.jsonl": [b'{"query_id":"q1","doc_id":"d\xff","score":1}\n', b'{"query_id":"q2","doc_id":"d\xe2\x82","score":0.5}\n']}
BINARY_CSV = [b"query_id,ap,rr\nq\xff,1,1\n", b"query_id,ap,rr\nq1,\xff,0.5\n", b"query_id,ap,rr\nq1,0.5,1\nq2,0.5,1\xc3\x28\n"]


def value(ty, v):
    return {"str": json.dumps(v), "int": v, "real": v, "null": "null", "bool": "true", "list": "[]"}[ty]


def render(c, rng, path):
    """bytes that have the content c"""
    if c["t"] == "binary":
        return rng.choice(BINARY_CSV if path.endswith(".csv") else BINARY[path] if rng.random() < 0.9 else [b"\xff\xfe\x00"])
    if c["t"] == "lines":
        text = "".join(x + "\n" for x in c["lines"])
    elif c["t"] == "jsonl":
        text = "".join(("{" + ",".join('"%s":%s' % (n, value(ty, v)) for n, ty, v in x["f"]) + "}" if x["ok"] else rng.choice(GARBAGE)) + "\n"
                       for x in c["lines"])
    else:
        text = cli.to_csv(c["rows"], c["sep"])
    return text.encode()


def recs(kind, c, name):
    field = lambda l, n: next(v for m, _, v in l["f"] if m == n)
    return cli.from_ev(kind, [(field(l, "query_id"), field(l, "doc_id"), field(l, "score")) for l in c["lines"]], name)


def segments(prop, rng, scenarios, thorough):
    out = []
    for x in scenarios:
        if isinstance(x, str):
            x = json.loads(x)
        evs = []
        for f in x["files"]:
            c = f["c"]
            if c["t"] in ("none", "dir", "device", "noparent"):
                evs.append(cli.mark(f["path"], c["t"]))
            else:
                e = cli.put(f["path"], render(c, rng, f["path"]), c["t"], c.get("sep", ","))
                if c["t"] != "binary" and e["c"] != c and not (c["t"] == "jsonl"):
                    raise cli.ToolError("rendered differently: %s %s" % (c, e["c"]))
                e["c"] = c
                evs.append(e)
        if "runs" in x:
            evs += [dict(e, fault=cli.NONE, style=rng.randrange(2 if e["op"] == "convert" else 6)) for e in x["runs"]]
            out.append({"ev": evs})
            continue
        e = x["run"]
        e["style"] = rng.randrange(2 if e["op"] == "convert" else 6)
        if e.get("mode") == "any":
            e["mode"] = rng.choice(["raw", "pretty"])
        contents = {f["path"]: f["c"] for f in x["files"]}
        if prop != "C23" and e["expect"] == "ok" and e["op"] == "evaluate":
            e["libq"] = [recs("true", contents[e["t"]], "t"), recs("pred", contents[e["p"]], "p")] + cli.evals(e["metrics"])
        if prop != "C23" and e["expect"] == "ok" and e["op"] == "convert":
            e["libq"] = [{"op": "trec", "kind": e["kind"], "lines": contents[e["in"]]["lines"], "as": "t"}]
        calm = dict(e, fault=cli.NONE)
        if e["fault"]["kind"] == "none":
            evs.append(e)
        elif e["fault"]["kind"] == "sweep":
            evs.append(calm)
            evs.append(dict(e, fault={"kind": "sweep", "on": e["fault"]["on"], "step": 1 if thorough else 3, "from": rng.randrange(3)}))
        else:
            evs += [calm, e]
        out.append({"ev": evs})
    return out
