#!/usr/bin/env python3
"""check.py PROPERTY: does the property hold on /repo's working tree?

1. builds the tool that executes call scripts against the code (harness), or the command-line tools;
2. lets TLC explore the bounded models of the property (their invariants are statements about the
   specification, and they write the scripts of all small cases);
3. executes those scripts and seeded random ones, recording what every call answers;
4. lets TLC decide whether every recorded history is a behaviour of the specification.

Exit 0: yes; 1: no (VIOLATION line); 2: the check itself failed.
check.py --replay FILE executes a reported history again.
"""
import json
import os
import shutil
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import common
from common import BUILD, ROOT, ToolError
import findings
import gen
import models

ASSUMPTIONS = [
    "the reference semantics in /verif/spec is right (self-tested by NumTest/ModTest and by the invariants of the MC models)",
    "TLC, its CommunityModules and Java's BigInteger/BigDecimal arithmetic (Num.java) are right",
    "the harness reports the answers of the public API unchanged",
]
# random segments: quick, thorough
N = {"C01": (1600, 16000), "C02": (960, 9600), "C03": (640, 6400), "C04": (640, 6400), "C05": (640, 6400), "C06": (400, 4800), "C07": (480,
     4800), "C08": (240, 6000), "C09": (1000, 12000), "C10": (1000, 12000), "C11": (320, 3200), "C12": (192, 2000), "C13": (480, 4800), "C14":
     (600, 6000), "C15": (192, 1600), "C16": (240, 2400), "C17": (240, 2400), "C22": (600, 8000)}


def trace_check(prop, log, work, timeout, known=True):
    return common.tlc("Trace", 'INIT TInit\nNEXT TNext\nALIAS Where\nCONSTANTS\n  Focus = {"%s"}\n  Open = %s\n' %
                      (prop, findings.constant() if known else "{}"), {"TRACE_LOG": log}, work, timeout)


def write_lines(path, xs):
    with open(path, "w") as f:
        for x in xs:
            f.write(json.dumps(x) + "\n")


def short(x, n=600):
    t = json.dumps(x, ensure_ascii=False)
    return t if len(t) <= n else t[:n] + "..."


def report(prop, seg, pos, work):
    """seg: recorded segment that was rejected at pos"""
    d = os.path.join(BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, seg["seg"]))
    seg = dict(seg, ev=seg["ev"][:pos])
    with open(path, "w") as f:
        json.dump({"property": prop, "how": "python3 /verif/check.py --replay " + path, "position": pos, "segment": seg}, f, indent=1)
    print("the specification does not allow this answer: " + short(seg["ev"][-1], 3000))
    print("VIOLATION property=%s replay=%s" % (prop, path))


def confirm(prop, line, work, known=True):
    """position at which the segment on its own is rejected, or None"""
    one = os.path.join(work, "one.ndjson")
    with open(one, "w") as f:
        f.write(line)
    t = trace_check(prop, one, work, 300, known)
    if t.ok:
        return None
    if not t.deadlock or not t.where:
        raise ToolError("TLC failed on one segment:\n" + t.out[-4000:])
    return t.where[1]


def replay(path):
    with open(path) as f:
        r = json.load(f)
    if "cli" in r:
        import cli
        return cli.replay(r)
    prop = r["property"]
    work = os.path.join(BUILD, "work", "replay-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        common.build_num()
        common.build_harness()
        seg = r["segment"]
        seg["seg"] = 1
        for e in seg["ev"]:
            e.pop("r", None)
        write_lines(os.path.join(work, "s.ndjson"), [seg])
        log = os.path.join(work, "l.ndjson")
        common.run_harness(os.path.join(work, "s.ndjson"), log, [seg])
        with open(log) as f:
            line = f.readline()
        pos = confirm(prop, line, work)
        if pos is None:
            print("accepted")
            return 0
        report(prop, json.loads(line), pos, work)
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


def library_check(prop, tier, seed, work):
    start = time.time()
    thorough = tier == "thorough"
    common.build_num()
    common.build_harness()
    segs, facts = models.run(prop, thorough, work)
    from_models = len(segs)
    probes = findings.probes(prop)
    segs += [p for _, p in probes]
    segs += gen.script(prop, seed, N[prop][thorough], thorough)
    for i, s in enumerate(segs):
        s["seg"] = i + 1
    script, log = os.path.join(work, "script.ndjson"), os.path.join(work, "log.ndjson")
    write_lines(script, segs)
    died = common.run_harness(script, log, segs)
    with open(log) as f:
        lines = f.readlines()
    t = trace_check(prop, log, work, 6 * 3600 if thorough else 600)
    bad = 0
    if not t.ok:
        if not t.deadlock or not t.where:
            raise ToolError("TLC failed:\n" + t.out[-6000:])
        line = lines[t.where[0] - 1]
        pos = confirm(prop, line, work)
        if pos is None:
            raise ToolError("TLC rejects line %d among others and accepts it alone" % t.where[0])
        report(prop, json.loads(line), pos, work)
        bad = 1
    # the known findings of this property: does the code still fail there?
    still = []
    for (what, _), line in zip(probes, lines[from_models:] if not died else []):
        if what not in still and confirm(prop, line, work, known=False) is not None:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
            still.append(what)
    ops = {}
    calls = 0
    for x in lines:
        for e in json.loads(x)["ev"]:
            ops.setdefault(e["op"], {}).setdefault(e["r"]["st"], 0)
            ops[e["op"]][e["r"]["st"]] += 1
            calls += 1
    samples = []
    for i in (0, from_models, len(lines) // 2, len(lines) - 1):
        if i < len(lines):
            x = json.loads(lines[i])
            samples.append({"segment": x["seg"], "id type": x["kt"], "calls": len(x["ev"]), "first": short(x["ev"][0]), "last": short(x["ev"][-1])})
    cov = {"states": t.distinct + sum(f["states"] for f in facts), "transitions": t.generated + sum(f["transitions"] for f in facts),
           "traces_validated_against_impl": len(lines) if t.ok else 0, "calls_validated": calls, "segments_from_models": from_models,
           "segments_random": len(segs) - from_models, "calls_and_answers": ops, "models": facts, "known_findings": still, "samples": samples, "exhaustive": False}
    common.write_evidence(prop, tier, seed, "model_checking", cov, time.time() - start, bad, ASSUMPTIONS)
    print("%s: %d histories (%d calls) recorded from the code, %d from bounded models; %s" %
          (prop, len(lines), calls, from_models, "rejected" if bad else "all accepted by the specification"))
    return bad


def main(argv):
    if argv[1] == "--replay":
        return replay(argv[2])
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    work = os.path.join(BUILD, "work", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        if prop in N:
            return library_check(prop, tier, seed, work)
        import cli
        return cli.check(prop, tier, seed, work)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        code = main(sys.argv)
    except ToolError as e:
        print("check failed: %s" % e)
        code = 2
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)
