"""The bounded models (spec/MC_*.tla): what they check about the specification, and the scripts they write."""
import json
import os
from concurrent.futures import ThreadPoolExecutor

import common


def strs(*xs):
    return "{%s}" % ", ".join('"%s"' % x for x in xs)


ALL = strs("str", "rev", "char", "u64", "i32")
# module -> invariants, temporal properties, constraints
FACTS = {
    "MC_Faults": (["ValidReadsUsable", "IntactIsValid", "SymmetricTables"], [], ["Ordered"]),
    "MC_Store": (["HoldsFirstOnes", "BulkAgrees", "Counted", "ExportImport"], [], []),
    "MC_Rank": (["OneRanking", "StrictOrder", "Rescaled"], [], []),
    "MC_Metrics": (["InRange", "SetLaws", "RankLaws", "DcgLaws", "Monotone", "CutoffBeyond", "ViewsDecide"], ["KeepsTop"], []),
    "MC_Scope": (["Domains"], [], []),
    "MC_Names": (["RoundTrip", "Shape"], [], []),
    "MC_Trec": (["SplitRight", "GapsDoNotMatter", "ExtraColumnsDoNotMatter"], [], []),
    "MC_Pair": (["Rows"], [], []),
    "MC_TTest": (["VarianceZero", "PInUnit", "SwapTurns", "Cauchy", "BootExact", "BootSwap", "BootOne"], [], []),
    "MC_Anova": (["ByDefinition", "Relabelled", "Shifted", "Degenerate", "TwoSystems", "PermExact"], [], []),
    "MC_Random": (["Positive", "Effective"], [], []),
    "MC_Shapes": (["Refused", "NothingToTest"], [], []),
    "MC_Tables": (["Meaning", "CommonIs", "Aligned", "Swapped", "Anova"], [], []),
    "MC_Eval": (["LineOrder", "Sizes"], [], []),
    "MC_Convert": (["Complete", "LineOrder", "Ranked", "Again"], [], []),
    "MC_Runs": (["Same", "Inputs3"], ["Frame"], []),
    "MC_Json": (["NeedsAll", "TrueIsPred", "OrderDoesNotMatter"], [], []),
}


def metrics(which, d, grades, ks):
    return ("MC_Metrics", dict(Documents=d, Grades=strs(*grades), Cutoffs=strs(*ks), Which='"%s"' % which, Levels='"%s"' % ("binary" if set(grades) <= {"0", "1"} else "graded")))


def ttest(which, n, ds, r="20000"):
    return ("MC_TTest", dict(Samples=n, Differences=strs(*ds), Which='"%s"' % which, Resamples='"%s"' % r))


def anova(which, m, n, xs, r="5000"):
    return ("MC_Anova", dict(Systems=m, Topics=n, Scores=strs(*xs), Which='"%s"' % which, Iterations='"%s"' % r))


def tables(k, n, ms, free):
    return ("MC_Tables", dict(Files=k, Rows=n, Metrics4=strs(*ms), Free=free))


KS = ["0", "1", "2", "3", "4", "5", "18446744073709551615"]
# property -> quick models, thorough models
MODELS = {
    "C01": ([("MC_Store", dict(Adds=3, Queries=2, Documents=2, IdTypes=strs("str", "rev", "u64")))],
            [("MC_Store", dict(Adds=4, Queries=2, Documents=2, IdTypes=ALL)), ("MC_Store", dict(Adds=3, Queries=3, Documents=3, IdTypes=ALL))]),
    "C02": ([("MC_Rank", dict(Documents=3, IdTypes=ALL, AllOrders="TRUE"))],
            [("MC_Rank", dict(Documents=4, IdTypes=ALL, AllOrders="TRUE")), ("MC_Rank", dict(Documents=5, IdTypes=ALL, AllOrders="FALSE"))]),
    "C03": ([metrics("C03", 4, ["0", "1", "2"], KS)], [metrics("C03", 5, ["0", "1", "2"], KS + ["6"])]),
    "C04": ([metrics("C04", 4, ["0", "1", "2"], KS)], [metrics("C04", 5, ["0", "1", "2"], KS + ["6"])]),
    "C05": ([metrics("C05", 4, ["0", "1", "2"], KS), metrics("C05", 4, ["0", "1"], KS)],
            [metrics("C05", 5, ["0", "1", "2", "40"], KS + ["6"]), metrics("C05", 5, ["0", "1"], KS + ["6"])]),
    "C06": ([metrics("C06", 3, ["0", "1", "2"], ["0", "1", "2", "3", "4"])],
            [metrics("C06", 3, ["0", "1", "2", "3"], ["0", "1", "2", "3", "4", "5"]), metrics("C06", 4, ["0", "1", "2"], ["0", "1", "2", "4"])]),
    "C07": ([("MC_Scope", dict(Queries=2, IdTypes=ALL))], [("MC_Scope", dict(Queries=3, IdTypes=strs("str", "i32")))]),
    "C08": ([("MC_Names", dict(Edits=1, Tails=strs("", "@10"), Alphabet='"@0+ _a"'))],
            [("MC_Names", dict(Edits=1, Tails=strs("", "@10", "@18446744073709551615", "@007"), Alphabet='"@019+-. _aAf"')),
             ("MC_Names", dict(Edits=2, Tails=strs("@1"), Alphabet='"@0"'))]),
    "C09": ([("MC_Trec", dict(Columns2=5, Words=strs("q", "1", "1.5")))],
            [("MC_Trec", dict(Columns2=6, Words=strs("q", "1", "1.5"))), ("MC_Trec", dict(Columns2=5, Words=strs("q", "0", "1.5", "-3", "+")))]),
    "C10": ([("MC_Pair", dict(Maps=2, Queries=3, IdTypes=ALL)), ("MC_Pair", dict(Maps=3, Queries=2, IdTypes=strs("str", "i32")))],
            [("MC_Pair", dict(Maps=3, Queries=3, IdTypes=ALL)), ("MC_Pair", dict(Maps=4, Queries=2, IdTypes=ALL))]),
    "C11": ([ttest("C11", 4, ["-1", "0", "1", "1/2"])], [ttest("C11", 5, ["-1", "0", "1", "1/2", "3"])]),
    "C12": ([ttest("C12", 3, ["-1", "0", "1", "2"])], [ttest("C12", 4, ["-1", "0", "1", "2", "1/2"], "50000"), ttest("C12", 5, ["-1", "0", "1"], "50000")]),
    "C13": ([anova("C13", 2, 3, ["0", "1", "2"]), anova("C13", 3, 2, ["0", "1", "2"])],
            [anova("C13", 2, 4, ["0", "1", "2"]), anova("C13", 3, 3, ["0", "1", "2"]), anova("C13", 4, 2, ["0", "1", "2"])]),
    "C14": ([anova("C14", 2, 3, ["0", "1", "2"]), anova("C14", 3, 2, ["0", "1", "2"])],
            [anova("C14", 2, 4, ["0", "1", "2"]), anova("C14", 3, 3, ["0", "1", "2"]), anova("C14", 4, 2, ["0", "1", "2"])]),
    "C15": ([anova("C15", 2, 2, ["0", "1", "3"]), anova("C15", 3, 2, ["0", "1"]), anova("C15", 2, 4, ["0", "1"])],
            [anova("C15", 2, 4, ["0", "1", "3"], "20000"), anova("C15", 3, 3, ["0", "1"], "20000"), anova("C15", 3, 2, ["0", "1", "3"], "20000"), anova("C15", 4, 2, ["0", "1"], "20000")]),
    "C16": ([("MC_Random", dict(Settings=3, Numbers=strs("0", "1", "7"), Seeds=strs("0", "1", "18446744073709551615")))],
            [("MC_Random", dict(Settings=4, Numbers=strs("0", "1", "7", "100"), Seeds=strs("0", "1", "18446744073709551615", "9007199254740993")))]),
    "C17": ([ttest("C17", 3, ["-1", "0", "1"]), ("MC_Shapes", dict(MaxTopics=3, MaxSystems=3)), anova("C17", 2, 3, ["0", "1"])],
            [ttest("C17", 5, ["-1", "0", "1"]), ("MC_Shapes", dict(MaxTopics=4, MaxSystems=4)), anova("C17", 2, 4, ["0", "1", "2"]), anova("C17", 3, 3, ["0", "1"])]),
    "C18": ([("MC_Eval", dict(Trues=2, Preds=2, TrueScores=strs("0", "1"), PredScores=strs("0.5", "1.0")))],
            [("MC_Eval", dict(Trues=3, Preds=2, TrueScores=strs("0", "2"), PredScores=strs("0.5", "1.0"))),
             ("MC_Eval", dict(Trues=2, Preds=3, TrueScores=strs("0", "1", "2"), PredScores=strs("0.5")))]),
    "C19": ([("MC_Convert", dict(Lines=3, More="FALSE"))], [("MC_Convert", dict(Lines=4, More="TRUE"))]),
    "C20": ([tables(1, 3, ["ap", "rr"], "TRUE"), tables(2, 3, ["ap", "rr"], "TRUE")],
            [tables(1, 4, ["ap", "rr", "ap@3"], "TRUE"), tables(2, 3, ["ap", "rr", "ap@3"], "FALSE"), tables(2, 4, ["ap", "rr"], "FALSE"), tables(2, 4, ["ap"], "TRUE")]),
    "C21": ([tables(3, 3, ["ap", "rr"], "FALSE"), tables(4, 2, ["ap"], "TRUE")],
            [tables(3, 3, ["ap", "rr", "hits"], "FALSE"), tables(3, 3, ["ap", "rr"], "TRUE"), tables(4, 3, ["ap"], "TRUE")]),
    "C22": ([("MC_Json", dict(Fields=3, Wide4="FALSE"))], [("MC_Json", dict(Fields=3, Wide4="TRUE"))]),
    "C24": ([("MC_Runs", dict(Length=3))], [("MC_Runs", dict(Length=4))]),
    "C23": ([("MC_Faults", dict(Depth=1, Wide3="TRUE"))], [("MC_Faults", dict(Depth=2, Wide3="FALSE"))]),
}
# models without state between the calls of a script: scripts may be joined
JOIN = {"MC_Names": 100, "MC_Trec": 20, "MC_Json": 100, "MC_Pair": 20}


def cfg(module, constants):
    inv, prop, con = FACTS[module]
    return "INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Focus = {%s}\n  Open = {}\n%s%s%s%s" % (
        '"C01"' if module == "MC_Store" else "",
        "".join("  %s = %s\n" % c for c in sorted(constants.items())), "".join("INVARIANT %s\n" % i for i in inv),
        "".join("PROPERTY %s\n" % p for p in prop), "".join("CONSTRAINT %s\n" % c for c in con))


def explore(module, constants, work, timeout):
    out = os.path.join(work, "scripts")
    # workers=1: the scripts are written to one file
    t = common.tlc(module, cfg(module, constants), {"OUT": out}, work, timeout, workers=1, heap="4g")
    if not t.ok:
        raise common.ToolError("model %s:\n%s" % (module, t.out[-4000:]))
    segs = []
    if os.path.exists(out):
        with open(out) as f:
            for line in f:
                x = json.loads(line)
                segs.append(json.loads(x) if isinstance(x, str) else x)
    n = len(segs)
    join = JOIN.get(module)
    if join:
        by = {}
        for s in segs:
            by.setdefault(s["kt"], []).extend(s["ev"])
        segs = [{"kt": kt, "ev": evs[i:i + join]} for kt, evs in by.items() for i in range(0, len(evs), join)]
    return segs, {"model": module, "constants": constants, "states": t.distinct, "transitions": t.generated, "behaviours_replayed": n,
                  "checked": FACTS[module][0] + FACTS[module][1]}


def run(prop, thorough, work):
    todo = MODELS.get(prop, ([], []))[thorough]
    segs, facts = [], []
    with ThreadPoolExecutor(4) as ex:
        done = list(ex.map(lambda x: explore(x[1][0], x[1][1], os.path.join(work, "model%d" % x[0]), 4 * 3600 if thorough else 400), enumerate(todo)))
    for s, f in done:
        segs += s
        facts.append(f)
    return segs, facts
