"""Seeded random and adversarial scripts of library calls, per property.

Every function yields segments {"kt": .., "ev": [..]}; the exhaustive small scripts come from the
MC_*.tla models instead.  Numbers are written so that the specification can read them exactly:
"m:e" for a double m * 2^e, or an integer.
"""
import math
import random
import struct

METRICS = ["hits", "success", "precision", "recall", "f1", "r_precision", "ap", "rr", "bpref",
           "dcg", "ndcg", "dcg_burges", "ndcg_burges"]
NOCUT = ("r_precision", "bpref")


def num(x):
    if isinstance(x, int):
        return str(x)
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    if x == 0:
        return "0"
    if x == int(x) and abs(x) < 2 ** 53:
        return str(int(x))
    m, e = math.frexp(x)
    m = int(m * 2 ** 53)
    e -= 53
    while m % 2 == 0:
        m //= 2
        e += 1
    return "%d:%d" % (m, e)


def key(kt, i):
    """i-th id of a family whose order as text differs from the order of the type."""
    if kt == "u64":
        return str([3, 10, 2, 100, 0, 9, 11, 99, 18446744073709551615, 1][i] if i < 10 else 2 ** 40 + 7 * i)
    if kt == "i32":
        return str([-1, 10, 9, -10, 0, -2147483648, 2147483647, 2, -9, 1][i] if i < 10 else 1000 - 37 * i)
    if kt == "char":
        s = "bBaé1\U0001F600A0z~"
        return s[i] if i < len(s) else chr(0x100 + 7 * i % 500)
    s = ["d10", "d2", "D2", "é", "d", "d 2", "10", "9", "\U0001F600", "\uff5e", "d1", "z", "d02", "文書", "", " d1"]
    return s[i] if i < len(s) else "d%d" % (i * 7919 % 1000)


def pred(rng, style):
    """a predicted score"""
    if style == "ties":
        return rng.choice([0.5, 0.25, 1.0])
    if style == "int":
        return float(rng.randint(-3, 5))
    if style == "close":
        return 1.0 + rng.randint(0, 6) * 2.0 ** -52
    if style == "tiny":
        return rng.choice([0.0, 5e-324, -5e-324, 1e-310, 2.2250738585072014e-308, -1e-300])
    if style == "huge":
        return rng.choice([1e308, -1e308, 1.7976931348623157e308, 1e300, 0.0, -1.0])
    if style == "near":
        return rng.randint(0, 30) / 1000.0
    if style == "inf":
        return rng.choice([math.inf, -math.inf, 1.7976931348623157e308, -1.7976931348623157e308, 0.0, 1.0])
    return rng.uniform(-10, 10)


STYLES = ["ties", "int", "close", "tiny", "huge", "near", "any", "inf"]


def judg(rng, style):
    if style == "binary":
        return rng.randint(0, 1)
    if style == "zero":
        return 0
    if style == "graded":
        return rng.randint(0, 4)
    if style == "deep":
        return rng.choice([0, 1, 2, 7, 30, 31, 32, 52, 53, 54, 63, 64])
    if style == "huge":
        return rng.choice([0, 1, 1000, 1022, 1023, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1])
    return rng.choice([0, 1, 2, 3, 100, 255, 256, 65535, 65536, 4294967295])


# ------------------------------------------------------------------ stores (C01, C02)
def store_segment(rng, n):
    kt = rng.choice(["str", "str", "char", "u64", "i32", "rev"])
    ev, live, have = [], [], []
    nb = ns = 0
    nq, nd = rng.randint(1, 4), rng.randint(1, rng.choice([3, 6, 12, 40]))
    for _ in range(rng.randint(1, 2)):
        kind = rng.choice(["true", "pred", "pred"])
        style = rng.choice(STYLES)
        js = rng.choice(["binary", "graded", "any"])
        sc = (lambda: num(judg(rng, js))) if kind == "true" else (lambda: num(pred(rng, style)))
        if rng.random() < 0.6:
            b = "b%d" % nb
            nb += 1
            ev.append({"op": "new", "b": b, "kind": kind})
            for _ in range(rng.randint(0, n)):
                q, d = key(kt, rng.randrange(nq)), key(kt, rng.randrange(nd))
                ev.append({"op": "add", "b": b, "q": q, "d": d, "s": sc()})
                have.append((q, d))
            s = "s%d" % ns
            ns += 1
            ev.append({"op": "build", "b": b, "as": s})
            live.append(s)
        else:
            pairs = [(q, d) for q in range(nq) for d in range(nd)]
            rng.shuffle(pairs)
            pairs = pairs[:rng.randint(0, n)]
            recs = [[key(kt, q), key(kt, d), sc()] for q, d in pairs]
            if recs and rng.random() < 0.3:
                q, d, x = rng.choice(recs)
                recs.insert(rng.randint(0, len(recs)), [q, d, rng.choice([x, sc()])])
            s = "s%d" % ns
            ns += 1
            ev.append({"op": "from", "kind": kind, "recs": recs, "as": s})
            live.append(s)
            have += [(r[0], r[1]) for r in recs]
        for q, d in rng.sample(have, min(3, len(have))) + [(key(kt, nq), key(kt, 0)), (key(kt, 0), key(kt, nd))]:
            ev.append({"op": "get", "s": s, "q": q, "d": d})
        if rng.random() < 0.6:
            t = "s%d" % ns
            ns += 1
            ev.append({"op": "copy", "s": s, "via": rng.choice(["bulk", "builder"]), "as": t})
            live.append(t)
    s = rng.choice(live)
    ev.append({"op": "dump", "s": s})
    ev.append({"op": "into", "s": s})
    return {"kt": kt, "ev": ev}


def big_ranking(rng, kind):
    """more than 20 documents with many ties, inserted in several orders"""
    kt = rng.choice(["str", "u64", "i32", "rev"])
    nd = rng.choice([21, 30, 33, 64, 80])
    style = rng.choice(["ties", "int", "close", "any"])
    docs = [(key(kt, i), num(pred(rng, style) if kind == "pred" else judg(rng, "graded"))) for i in range(nd)]
    ev = []
    for j in range(3):
        rng.shuffle(docs)
        recs = [["1", d, x] for d, x in docs]
        if rng.random() < 0.5:
            ev.append({"op": "from", "kind": kind, "recs": recs, "as": "s%d" % j})
        else:
            ev.append({"op": "new", "b": "b", "kind": kind})
            ev += [{"op": "add", "b": "b", "q": q, "d": d, "s": x} for q, d, x in recs]
            ev.append({"op": "build", "b": "b", "as": "s%d" % j})
    return {"kt": kt, "ev": ev}


def c01(rng, n):
    for i in range(n):
        yield store_segment(rng, rng.choice([2, 5, 10, 30]))


def c02(rng, n):
    for i in range(n):
        yield [lambda: big_ranking(rng, "pred"), lambda: big_ranking(rng, "true"),
               lambda: store_segment(rng, rng.choice([10, 30, 60])),
               lambda: rescaling(rng)][i % 4]()


def rescaling(rng):
    """same judgments; predictions in another order of insertion, or rescaled"""
    kt = rng.choice(["str", "u64", "rev"])
    nd = rng.randint(2, 25)
    style = rng.choice(["ties", "int", "near", "any", "inf"])
    xs = [pred(rng, style) for _ in range(nd)]
    docs = list(range(nd))
    ev = [{"op": "from", "kind": "true", "as": "t",
           "recs": [["1", key(kt, d), num(judg(rng, "graded"))] for d in docs if rng.random() < 0.7]
           or [["1", key(kt, 0), "1"]]}]
    # strictly increasing on these values
    ranks = sorted(set(xs))
    maps = [lambda x: x, lambda x: x, lambda x: float(ranks.index(x)) * 3.0 - 2.0, lambda x: x * 0.125,
            lambda x: 2.0 ** ranks.index(x)]
    for j, f in enumerate(maps):
        rng.shuffle(docs)
        ev.append({"op": "from", "kind": "pred", "as": "p%d" % j, "recs": [["1", key(kt, d), num(f(xs[d]))] for d in docs]})
    for m in METRICS:
        k = 0 if m in NOCUT else rng.choice([0, 1, 3, 5, nd])
        ev += [{"op": "eval", "t": "t", "p": "p%d" % j, "m": m, "k": str(k), "as": "e%s%d" % (m, j)} for j in range(len(maps))]
    return {"kt": kt, "ev": ev}


# ------------------------------------------------------------------ metrics (C03 - C07)
KS = [0, 1, 2, 3, 5, 10, 21, 22, 50, 100, 1000, 2 ** 16, 2 ** 16 + 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 53 + 1, 2 ** 63, 2 ** 64 - 1]


def eval_segment(rng, metrics, nmax=12, jstyles=("binary", "zero", "graded", "any")):
    kt = rng.choice(["str", "str", "u64", "char", "i32", "rev"])
    nd = rng.randint(1, nmax)
    pool = [key(kt, i) for i in range(nd + rng.randint(0, 4))]
    nq = rng.randint(1, 3)
    T, P = [], []
    for q in range(nq + rng.randint(0, 1)):
        js, ps = rng.choice(jstyles), rng.choice(STYLES)
        ds = rng.sample(pool, rng.randint(1, len(pool)))
        T += [[key(kt, q), d, num(judg(rng, js))] for d in ds]
        if q < nq:
            ds = rng.sample(pool, rng.randint(1, len(pool)))
            P += [[key(kt, q), d, num(pred(rng, ps))] for d in ds]
    rng.shuffle(T)
    rng.shuffle(P)
    ev = [{"op": "from", "kind": "true", "as": "t", "recs": T}, {"op": "from", "kind": "pred", "as": "p", "recs": P}]
    i = 0
    for m in metrics:
        ks = [0] if m in NOCUT else sorted(set([0] + rng.sample(KS, 4) + [rng.randint(1, nd + 1)]))
        for k in ks:
            ev.append({"op": "eval", "t": "t", "p": "p", "m": m, "k": str(k), "as": "e%d" % i})
            i += 1
    return {"kt": kt, "ev": ev}


def deep_segment(rng, metrics):
    """long rankings: cutoffs around the end, relevance far down"""
    nd = rng.choice([25, 60, 130])
    nj = rng.choice([1, 5, nd, nd + 20])
    js = rng.choice(["binary", "graded", "deep"])
    T = [["1", str(d), num(judg(rng, js))] for d in rng.sample(range(nd + 20), nj)]
    ps = rng.choice(["ties", "near", "any"])
    P = [["1", str(d), num(pred(rng, ps))] for d in range(nd)]
    ev = [{"op": "from", "kind": "true", "as": "t", "recs": T}, {"op": "from", "kind": "pred", "as": "p", "recs": P}]
    for m in metrics:
        for k in [0] if m in NOCUT else [0, nd - 1, nd, nd + 1, rng.randint(1, nd)]:
            ev.append({"op": "eval", "t": "t", "p": "p", "m": m, "k": str(k), "as": "%s%d" % (m, k)})
    return {"kt": "u64", "ev": ev}


def again_segment(rng, metrics, jstyles):
    """stores made and given away again and again: the same ids and sizes, other contents"""
    kt = rng.choice(["str", "u64", "char", "i32", "rev"])
    nd = rng.randint(1, 8)
    ids = [key(kt, i) for i in range(nd)]
    q = key(kt, 0)
    js, ps = rng.choice(jstyles), rng.choice(STYLES)
    J, X = [judg(rng, js) for _ in ids], [pred(rng, ps) for _ in ids]
    ms = [(m, 0 if m in NOCUT else rng.choice([0, 0, 1, 2, nd])) for m in rng.sample(metrics, min(len(metrics), rng.choice([1, 1, 2])))]
    ev = []
    for j in range(6):
        x = rng.randint(0, 3)
        if x == 0:
            rng.shuffle(J)
        elif x == 1:
            J = [judg(rng, js) for _ in ids]
        elif x == 2:
            rng.shuffle(X)
        else:
            J[rng.randrange(nd)] = judg(rng, js)
        ev += [{"op": "from", "kind": "true", "as": "t", "recs": [[q, d, num(y)] for d, y in zip(ids, J)]},
               {"op": "from", "kind": "pred", "as": "p", "recs": [[q, d, num(y)] for d, y in zip(ids, X)]}]
        ev += [{"op": "eval", "t": "t", "p": "p", "m": m, "k": str(k), "as": "e%s%d" % (m, j)} for m, k in ms]
        if rng.random() < 0.8:
            ev += [{"op": "into", "s": s} for s in rng.choice(["tp", "pt", "t"])]
    return {"kt": kt, "ev": ev}


def metric_gen(metrics, jstyles):
    def g(rng, n):
        for i in range(n):
            if i % 8 == 5:
                yield again_segment(rng, metrics, jstyles)
            elif i % 8 == 7:
                yield deep_segment(rng, metrics)
            else:
                yield eval_segment(rng, metrics, rng.choice([3, 8, 20, 30]), jstyles)
    return g


c03 = metric_gen(METRICS[:6], ("binary", "zero", "graded", "any"))
c04 = metric_gen(METRICS[6:9], ("binary", "zero", "graded", "any"))
c05 = metric_gen(METRICS[9:], ("binary", "zero", "graded", "deep", "huge", "any"))


def scores_for(rng, r):
    """scores that rank the ids r (numbers) in this order: of any sign and scale, tied where the ids ascend"""
    n = len(r)
    step = [1 if x == 0 or r[x] < r[x - 1] else rng.choice([0, 0, 1]) for x in range(n)] if rng.random() < 0.3 else [1] * n
    at, out = 0, []
    for s in step:
        at += s
        out.append(at)
    f = rng.choice([lambda x: 1000.0 - x, lambda x: 1000.0 - x, lambda x: -float(x), lambda x: float(at // 2 - x), lambda x: 1.0 - 1e9 * x, lambda x: -1e12 * x,
                    lambda x: 2.0 ** -x, lambda x: 0.5 - x / 64, lambda x: (1 + at - x) * 5e-324, lambda x: 1e300 * (at // 2 - x)])
    return [f(x) for x in out]


def c06(rng, n):
    """one query; rankings that differ below the cutoff, in unjudged documents, or by a promotion"""
    for i in range(n):
        nd = rng.randint(2, rng.choice([6, 12, 25]))
        js = rng.choice(["binary", "graded", "any", "deep"])
        judged = {d: judg(rng, js) for d in range(nd) if rng.random() < 0.7} or {0: 1}
        non = nd
        for x in range(3):
            judged[non + x] = 0          # judged non-relevant, for replacements
        base = rng.sample(range(nd), rng.randint(2, nd))
        k = rng.choice([1, 2, 3, 5, len(base), len(base) + 1, 2 ** 33])
        var = [base]
        if k < len(base):
            tail = base[k:]
            rng.shuffle(tail)
            var.append(base[:k] + tail)
            var.append(base[:k] + [100 + rng.randint(0, 5)])
            var.append(base[:k])
        var.append([non if (d not in judged) and j == min([x for x in range(len(base)) if base[x] not in judged] or [-1]) else d
                    for j, d in enumerate(base)])
        at = rng.randint(0, len(base))
        var.append(base[:at] + [200 + x for x in range(rng.randint(1, 2) if rng.random() < 0.8 else rng.randint(30, 400))] + base[at:])
        for _ in range(3):
            a = rng.randrange(len(base) - 1)
            b = list(base)
            b[a], b[a + 1] = b[a + 1], b[a]
            var.append(b)
        ev = [{"op": "from", "kind": "true", "as": "t", "recs": [["1", str(d), str(x)] for d, x in judged.items()]}]
        for j, r in enumerate(var):
            ev.append({"op": "from", "kind": "pred", "as": "p%d" % j,
                       "recs": [["1", str(d), num(x)] for x, d in zip(scores_for(rng, r), r)]})
        for m in rng.sample(METRICS, 7):
            for kk in [0] if m in NOCUT else [k, 0]:
                ev += [{"op": "eval", "t": "t", "p": "p%d" % j, "m": m, "k": str(kk), "as": "%s%d.%d" % (m, kk, j)}
                       for j in range(len(var))]
        yield {"kt": "u64", "ev": ev}


def c07(rng, n):
    for i in range(n):
        kt = rng.choice(["str", "u64", "char", "i32", "rev"])
        nq = rng.choice([1, 2, 3, 7, 9]) if kt not in ("str", "rev") else rng.choice([1, 3, 12, 40])
        nd = rng.randint(1, 5)
        recs = {}
        for q in range(nq):
            recs[q] = ([[key(kt, q), key(kt, d), num(judg(rng, "graded"))] for d in range(nd)],
                       [[key(kt, q), key(kt, d), num(pred(rng, "any"))] for d in rng.sample(range(nd), rng.randint(1, nd))])
        ev = []

        def stores(j, tq, pq):
            T = [r for q in tq for r in recs[q][0]]
            P = [r for q in pq for r in recs[q][1]]
            rng.shuffle(T)
            rng.shuffle(P)
            ev.append({"op": "from", "kind": "true", "as": "t%d" % j, "recs": T})
            ev.append({"op": "from", "kind": "pred", "as": "p%d" % j, "recs": P})

        qs = list(range(nq))
        stores(0, qs, qs)
        stores(1, rng.sample(qs, max(1, nq // 2)), rng.sample(qs, max(1, nq // 2)))   # missing ones, mostly
        sub = rng.sample(qs, rng.randint(1, nq))
        stores(2, qs, sub)
        stores(3, sub, sub)
        extra = qs[-1]
        stores(4, [q for q in qs if q != extra] or [0], qs)
        for m in rng.sample(METRICS, 4):
            k = 0 if m in NOCUT else rng.choice([0, 1, 2, 10, 2 ** 40])
            for j in range(5):
                ev.append({"op": "eval", "t": "t%d" % j, "p": "p%d" % j, "m": m, "k": str(k), "as": "%s%d" % (m, j)})
        yield {"kt": kt, "ev": ev}


# ------------------------------------------------------------------ metric names (C08)
def c08(rng, n):
    sufs = ["", "@", "@0", "@00", "@01", "@1", "@10", "@100", "@007", "@4294967295", "@4294967296", "@9223372036854775807",
            "@9223372036854775808", "@18446744073709551615", "@18446744073709551616", "@00000000000000000000000000000000001",
            "@99999999999999999999999999", "@-1", "@+1", "@1.0", "@1e2", "@0x1", "@ 1", "@1 ", " @1", "@@1", "@1@1", "@a", "@１", "@٣",
            "@1\n", "\n", " ", "\t", "@\u00a01", "@1_000", "@1,000", "@inf", "@k", "@१०", "@1٣", "@٣1", "@1１", "@1\u00b2", "@1\u0301", "\u200b", "@1\u200b", "@1\x00", "\x00", "@1;", "@1,2", "@(1)", "@1 0"]
    names = METRICS + ["", "map", "mrr", "F1", "AP", "Precision", "PRECISION", "hit", "hitss", "r-precision", "rprecision", "r_precision_",
                       "_hits", "ndcg_burge", "ndcgburges", "ndcg-burges", "dcg_", "f2", "p", "recall0", "f1 ", " f1", "f1@5x", "é", "hıts", "ѕuccess",
                       "hits1", "f10", "bpref1", "ndcg5", "ndcg9", "ap1", "f", "f11"]
    texts = [a + b for a in names for b in sufs]
    rng.shuffle(texts)
    for i in range(0, len(texts), 150):
        yield {"kt": "str", "ev": [{"op": "mparse", "text": t} for t in texts[i:i + 150]]}
    ev = [{"op": "mprint", "m": m, "k": str(k)} for m in METRICS for k in ([0] if m in NOCUT else KS + [rng.getrandbits(64) for _ in range(4)])]
    yield {"kt": "str", "ev": ev}
    alpha = "abcdefghijklmnoprstuvwxyz_@0123456789 -+.\tÀ"
    for i in range(n):
        ev = []
        for _ in range(100):
            t = list(rng.choice(METRICS) + rng.choice(["", "@" + str(rng.getrandbits(rng.randint(1, 70)))]))
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                a = rng.randint(0, len(t))
                c = rng.choice(alpha)
                o = rng.randint(0, 3)
                if o == 0:
                    t.insert(a, c)
                elif t and o == 1:
                    del t[a % len(t)]
                elif t and o == 2:
                    t[a % len(t)] = c
                elif t:
                    t[a % len(t)] = t[a % len(t)].upper()
            ev.append({"op": "mparse", "text": "".join(t)})
        yield {"kt": "str", "ev": ev}


# ------------------------------------------------------------------ TREC (C09)
GOODT = ["0", "1", "2", "-1", "-2147483648", "2147483647", "+3", "007", "-0", "+0"]
BADT = ["", "1.0", "1e3", "2147483648", "-2147483649", "a", "0x1", "1_0", "--1", "+", "-", "１", "1,5", "NaNa", "99999999999999999999"]
GOODP = ["0.5", "1", "-1", "1e-5", "1E5", "+.5", "5.", "-0.0", "0", "1e308", "-1.7976931348623157e308", "5e-324", "0.1", "3.141592653589793238462643",
         "123456789012345678901234567890", "00012.50", "1e+2", "0.30000000000000004", "2.5e-324", "9007199254740993", "1e-400", "-1e-5", "0e0",
         "inf", "-inf", "+Infinity", "-iNFinITy", "INF", "1e400", "-1e999"]
BADP = ["", ".", "+", "-", "e5", "1e", "1e+", "1.2.3", "0x10", "1,5", "abc", "1_000", "--1", "1f", "１", "1e5.0", "+-1", "infin", "in", "inff", "1inf", "∞", "-", "inf0"]
SEPS = [" ", "  ", "\t", " \t ", "\u00a0", "\u3000", "\u2003", "\x0b", "\x0c", "\u0085", "\r"]


def trec_line(rng, kind, q, d, sc):
    sep = lambda: rng.choice(SEPS) if rng.random() < 0.3 else rng.choice([" ", "\t"])
    cols = [q, rng.choice(["0", "Q0", "x", "1"]), d] + ([sc] if kind == "true" else [rng.choice(["1", "x", "-5", "0", "999"]), sc])
    cols += ["tag", "more", "4", "0.1"][:rng.choice([0, 0, 1, 1, 2, 4])]
    return rng.choice(["", "", " ", "\t"]) + "".join(c + sep() for c in cols)[:-1] + rng.choice(["", "", " ", "\r", "\t "])


def trec_segment(rng):
    ev = []
    for j in range(rng.randint(1, 3)):
        kind = rng.choice(["true", "pred"])
        good, bad = (GOODT, BADT) if kind == "true" else (GOODP, BADP)
        ids = ["q1", "q2", "Q1", "1", "01", "é", "q,1", "d\u200b", "#", "q-1", "\U0001F600", "\"q\"", "\ufeffq1", "#q1", "//q", "'q'", "%", "q1:", "-1", "+1",
               "1.0", "NaN", "\u00ad", "q\u0301", "q1;", "\\q", "<q>", "\u200e"]
        pairs = [(q, d) for q in rng.sample(ids, 3) for d in rng.sample(ids, 5)]
        rng.shuffle(pairs)
        if rng.random() < 0.3:
            pairs.insert(rng.randint(0, len(pairs)), rng.choice(pairs))
        num_ = lambda: rng.choice(good) if rng.random() < 0.7 else (
            str(rng.randint(-2 ** 31, 2 ** 31 - 1)) if kind == "true" else repr(struct.unpack("<d", struct.pack("<Q", rng.getrandbits(62)))[0]))
        lines = [trec_line(rng, kind, q, d, num_()) for q, d in pairs[:rng.randint(0, len(pairs))]]
        if rng.random() < 0.4:
            x = rng.choice(["bad", "short", "empty", "blank", "cut"])
            ln = {"bad": trec_line(rng, kind, "qq", "dd", rng.choice(bad) or "z"), "short": "q1 0 d1" if kind == "true" else "q1 0 d1 1",
                  "empty": "", "blank": rng.choice([" ", "\t", "\u00a0", "\r"]), "cut": "q1"}[x]
            lines.insert(rng.randint(0, len(lines)), ln)
        ev.append({"op": "trec", "kind": kind, "lines": lines, "as": "s%d" % j})
    return {"kt": "str", "ev": ev}


def c09(rng, n):
    for kind, good, bad in (("true", GOODT, BADT), ("pred", GOODP, BADP)):
        ev = []
        for i, sc in enumerate(good + bad):
            pre = ["q", "0", "d"] if kind == "true" else ["q", "0", "d", "1"]
            ev.append({"op": "trec", "kind": kind, "lines": [" ".join(pre + [sc])], "as": "a"})
            ev.append({"op": "trec", "kind": kind, "lines": ["\t".join(pre + [sc, "tag"]), " ".join(["p"] + pre[1:] + ["1"])], "as": "a"})
        yield {"kt": "str", "ev": ev}
    for i in range(n):
        yield trec_segment(rng)


# ------------------------------------------------------------------ JSON (C22)
def c22(rng, n):
    import json
    ids = ["q1", "", " ", "\"", "\\", "\n\t", "é", "\U0001F600", "\u0000", "null", "1", "a/b", "\u2028"]
    ev = []
    for s in ["0", "1", "2", "255", "2147483647", "2147483648", "4294967295"]:
        ev.append({"op": "jser", "kind": "true", "q": rng.choice(ids), "d": rng.choice(ids), "s": s})
    for x in [0.0, 1.0, -1.0, 0.1, 1e308, -1.7976931348623157e308, 5e-324, 1e15, 1e16, 1e17, 1e21, 123456789.125, 1 / 3, 0.3, 1e-7]:
        ev.append({"op": "jser", "kind": "pred", "q": rng.choice(ids), "d": rng.choice(ids), "s": num(x)})
    for i in ids:
        for kind in ("true", "pred"):
            ev.append({"op": "jser", "kind": kind, "q": i, "d": rng.choice(ids), "s": "3"})
    for _ in range(n):
        ev.append({"op": "jser", "kind": "pred", "q": rng.choice(ids), "d": rng.choice(ids), "s": num(rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300))})
        ev.append({"op": "jser", "kind": "true", "q": rng.choice(ids), "d": rng.choice(ids), "s": str(rng.getrandbits(32))})
    yield {"kt": "str", "ev": ev}
    vals = [("str", '"3"', "3"), ("str", '""', ""), ("int", "3", "3"), ("int", "0", "0"), ("int", "-1", "-1"), ("int", "4294967295", "4294967295"),
            ("int", "4294967296", "4294967296"), ("real", "0.5", "0.5"), ("real", "-2.25", "-2.25"), ("real", "3.0", "3.0"), ("real", "1e2", "1e2"),
            ("real", "1.5e-3", "1.5e-3"), ("null", "null", "0"), ("bool", "true", "0"), ("list", "[1]", "0"), ("list", "{}", "0"),
            ("int", "-2147483648", "-2147483648"), ("real", "1e-10", "1e-10"), ("real", "0.1", "0.1")]

    def jde(kind, fs, ws):
        text = "{" + ws + ("," + ws).join('"%s":%s%s' % (f[0], ws, f[3]) for f in fs) + ws + "}"
        return {"op": "jde", "kind": kind, "text": text, "fields": [f[:3] for f in fs]}

    ev = []
    for kind in ("true", "pred"):
        for pos in range(3):
            for ty, text, v in vals:
                fs = [["query_id", "str", "q", '"q"'], ["doc_id", "str", "d", '"d"'], ["score", "int", "1", "1"]]
                fs[pos] = [fs[pos][0], ty, v, text]
                rng.shuffle(fs)
                ev.append(jde(kind, fs, rng.choice(["", " ", "\n"])))
        for miss in range(8):
            fs = [["query_id", "str", "q", '"q"'], ["doc_id", "str", "d", '"d"'], ["score", "int", "1", "1"]]
            ev.append(jde(kind, [f for j, f in enumerate(fs) if not miss >> j & 1], ""))
    # a field of another name is not that field
    for kind in ("true", "pred"):
        for pos, names in enumerate([["queryid", "query", "qid", "query-id", "queryId", "Query_id", "QUERY_ID", "query_id ", " query_id", "id", "q", "topic", "topic_id", "_query_id", "query__id", ""],
                                     ["docid", "doc", "did", "doc-id", "docId", "Doc_id", "document_id", "docno", "DOC_ID", "doc_id ", "id", "d", "document", ""],
                                     ["scores", "Score", "SCORE", "score ", "rel", "relevance", "value", "rank", "grade", "label", "s", "", "sc\u00f6re"]]):
            for name in names:
                fs = [["query_id", "str", "q", '"q"'], ["doc_id", "str", "d", '"d"'], ["score", "int", "1", "1"]]
                fs[pos][0] = name
                rng.shuffle(fs)
                ev.append(jde(kind, fs, ""))
    for i in ["x" * 300, "x" * 70000, "\u0007\u001f\u007f\u0085", "\\u0041", "\ufeffq", "\ud7ff\ue000\U0010ffff", "q\r\n", "'", "</script>", "e\u0301"]:
        kind = rng.choice(["true", "pred"])
        ev.append({"op": "jser", "kind": kind, "q": i, "d": rng.choice(ids), "s": "3"})
        ev.append({"op": "jser", "kind": kind, "q": rng.choice(ids), "d": i, "s": "3"})
        fs = [["query_id", "str", i, json.dumps(i)], ["doc_id", "str", i, json.dumps(i, ensure_ascii=False)], ["score", "int", "1", "1"]]
        ev.append(jde(kind, fs, ""))
    for _ in range(n):
        kind = rng.choice(["true", "pred"])
        q, d = rng.choice(ids), rng.choice(ids)
        ty, text, v = rng.choice(vals)
        if kind == "pred" and rng.random() < 0.5:
            text = v = repr(rng.uniform(-1, 1) * 10.0 ** rng.randint(-30, 30))
            ty = "real"
        fs = [["query_id", "str", q, json.dumps(q, ensure_ascii=rng.random() < 0.5)], ["doc_id", "str", d, json.dumps(d, ensure_ascii=rng.random() < 0.5)],
              ["score", ty, v, text]]
        rng.shuffle(fs)
        if rng.random() < 0.15:
            fs.pop()
        ev.append(jde(kind, fs, rng.choice(["", " ", "\t"])))
    yield {"kt": "str", "ev": ev}


# ------------------------------------------------------------------ pairing (C10)
def c10(rng, n):
    for i in range(n):
        kt = rng.choice(["str", "u64", "i32", "char", "rev"])
        ev = []
        for _ in range(8):
            nq = rng.choice([0, 1, 2, 3, 9, 25]) if kt in ("str", "rev") else rng.randint(0, 9)
            qs = [key(kt, j) for j in range(nq)]
            qs = list(dict.fromkeys(qs))
            m = rng.choice([0, 1, 2, 2, 3, 3, 4, 6])
            maps = []
            for _ in range(m):
                rng.shuffle(qs)
                maps.append([[q, num(rng.choice([rng.random(), float(rng.randint(0, 3)), -0.5, 1e300, -1e300, 5e-324, -1e-310, 1.7976931348623157e308, -1.7976931348623157e308, math.inf, -math.inf, rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300)]))] for q in qs])
            if m and rng.random() < 0.4:
                j = rng.randrange(m)
                r = rng.randint(0, 2)
                if r == 0 and maps[j]:
                    maps[j].pop()
                elif r == 1:
                    maps[j].append([key(kt, 9 if kt not in ("str", "rev") else 30), "1"])
                elif maps[j]:
                    maps[j][rng.randrange(len(maps[j]))][0] = key(kt, 9 if kt not in ("str", "rev") else 31)
            ev.append({"op": "pairs" if m == 2 and rng.random() < 0.5 else "tuples", "maps": maps})
        yield {"kt": kt, "ev": ev}


# ------------------------------------------------------------------ tests (C11 - C17)
LEVELS_OK = [0.05, 0.01, 0.1, 0.5, 1.0, 0.001, 1e-4, 0.9, 0.2, 0.3173]
LEVELS_BAD = ["0", "-1", "NaN", "inf", "-inf", num(1.0000000000000002), "2", num(-1e-300), "-0"]


def levels(rng, bad):
    ls = [num(a) for a in rng.sample(LEVELS_OK, 3)] + [num(rng.uniform(1e-4, 1))]
    if bad:
        ls += LEVELS_BAD + [num(1e-300), num(5e-324)]
    return ls


def sample_style(rng):
    s = rng.choice(["unit", "int", "quarter", "offset", "scale", "tiny", "mixed", "neg", "metric"])
    if s == "unit":
        return rng.random
    if s == "int":
        return lambda: float(rng.randint(-3, 3))
    if s == "quarter":
        return lambda: rng.randint(0, 8) / 4.0
    if s == "offset":
        return lambda: 1e8 + rng.random()
    if s == "scale":
        c = 10.0 ** rng.randint(-60, 60)
        return lambda: c * rng.uniform(-1, 1)
    if s == "tiny":
        return lambda: 1.0 + rng.randint(0, 8) * 1e-9
    if s == "mixed":
        return lambda: rng.uniform(-1, 1) * 10.0 ** rng.randint(-6, 6)
    if s == "neg":
        return lambda: -rng.expovariate(1.0)
    return lambda: rng.choice([0.0, 1.0, 0.5, 1 / 3, 2 / 3, 0.1, 0.2, 0.7])


def c11(rng, n):
    for i in range(n):
        f = sample_style(rng)
        k = rng.choice([2, 2, 3, 4, 5, 8, 10, 20, 50, 51, 100])
        x = [[num(f()), num(f())] for _ in range(k)]
        if rng.random() < 0.3:      # a strong effect
            g = sample_style(rng)
            x = [[num(10.0 + f() % 1), num(f() % 1)] for _ in range(k)]
        ev = [{"op": "ttest", "x": x, "levels": levels(rng, False)},
              {"op": "ttest", "x": [[b, a] for a, b in x], "levels": levels(rng, False)}]
        y = list(x)
        rng.shuffle(y)
        ev.append({"op": "ttest", "x": y, "levels": levels(rng, False)})
        yield {"kt": "str", "ev": ev}
    # every sample size once
    for k in list(range(2, 40)):
        x = [[num(rng.random()), num(rng.random())] for _ in range(k)]
        yield {"kt": "str", "ev": [{"op": "ttest", "x": x, "levels": levels(rng, False)}]}


def table(rng, f, n, m):
    return [[num(f()) for _ in range(m)] for _ in range(n)]


def anova_tables(rng, n, op, bad=False):
    for i in range(n):
        f = sample_style(rng)
        m = rng.choice([2, 2, 3, 3, 4, 5, 8])
        k = rng.choice([2, 3, 4, 5, 10, 20, 50])
        X = table(rng, f, k, m)
        if rng.random() < 0.3:      # effects of systems and topics
            a = [rng.uniform(0, 3) for _ in range(m)]
            b = [rng.uniform(0, 3) for _ in range(k)]
            X = [[num(a[s] + b[t] + 0.1 * rng.random()) for s in range(m)] for t in range(k)]
        ev = []
        ps, pt = rng.sample(range(m), m), rng.sample(range(k), k)
        for Y in (X, [[X[t][s] for s in ps] for t in pt]):
            e = {"op": op, "x": Y, "m": m}
            if op == "anova":
                e["levels"] = levels(rng, bad)
            ev.append(e)
        yield {"kt": "str", "ev": ev}


def c13(rng, n):
    yield from anova_tables(rng, n, "anova")


def c14(rng, n):
    yield from anova_tables(rng, n, "tukey")


def call(op, x, n, seed, order):
    sets = ([["n", n]] if n != "" else []) + ([["seed", seed]] if seed != "" else [])
    if order == "sn":
        sets.reverse()
    return {"op": op, "x": x, "sets": sets, "via": order if order in ("from", "default") else "new"}


def boot(x, n, seed, order="ns"):
    return call("boot", x, n, seed, order)


def c12(rng, n):
    for i in range(n):
        k = rng.choice([2, 3, 4, 4, 5, 6, 8])
        mode = i % 4
        if mode == 0:      # arithmetic without rounding, ties exact
            k = rng.choice([4, 4, 8])
            d = [rng.randint(-2, 3) for _ in range(k)]
        elif mode == 1:
            d = [rng.randint(-1, 2) for _ in range(k)]
        elif mode == 2:    # large effect: small p
            d = [rng.choice([2, 3, 4, 5]) for _ in range(k)]
        elif i % 8 == 3:   # many samples, few different ones
            k = rng.choice([11, 12, 16, 20, 30, 31, 32, 33, 50, 64, 100])
            vals = rng.choice([(-1, 1), (-1, 2), (0, 1), (-1, 0, 1), (-1, 1, 2)] if k <= 50 else [(-1, 1), (0, 1), (-1, 2)])
            d = [rng.choice(vals) for _ in range(k)]
        else:
            d = [rng.randint(-3, 3) for _ in range(k)]
            if rng.random() < 0.4:
                d[-1] = -sum(d[:-1])     # observed mean 0
        if len(set(d)) == 1:
            d[0] += 1
        if max(abs(v) for v in d) > 12:
            continue
        sc = rng.choice([1.0, 0.25, 0.5])
        base = [rng.randint(0, 4) for _ in range(k)]
        x = [[num((b + v) * sc), num(b * sc)] for b, v in zip(base, d)]
        N = rng.choice(["100000", "200000", "50000"])
        ev = [boot(x, N, str(rng.getrandbits(64))), boot([[b, a] for a, b in x], N, str(rng.getrandbits(32)), "sn"),
              boot(x, rng.choice(["1", "2", "0", "3", "7"]), str(rng.getrandbits(20))), boot(x, "", "", rng.choice(["ns", "from", "default"]))]
        yield {"kt": "str", "ev": ev}
    for i in range(n):     # arbitrary samples: range and multiple only
        f = sample_style(rng)
        x = [[num(f()), num(f())] for _ in range(rng.choice([2, 3, 10, 30]))]
        yield {"kt": "str", "ev": [boot(x, str(rng.randint(1, 300)), str(rng.getrandbits(64)))]}


def rtk(X, m, n, seed, order="ns"):
    return dict(call("rtukey", X, n, seed, order), m=m)


def c15(rng, n):
    for i in range(n):
        m, k = rng.choice([(2, 2), (2, 4), (2, 8), (2, 12), (3, 1), (3, 2), (3, 3), (3, 5), (4, 2), (4, 3), (2, 1), (2, 31), (2, 64), (2, 100),
                           (3, 12), (3, 20), (3, 40), (4, 6), (4, 10), (5, 2), (5, 4)])
        hi = rng.choice([1, 2, 3, 5] if m * k <= 20 else [1, 2])
        sc = rng.choice([1.0, 0.5, 0.125])
        X = [[rng.randint(0, hi) * sc for _ in range(m)] for _ in range(k)]
        if rng.random() < 0.4:       # a system apart
            for r in X:
                r[rng.randrange(m) if rng.random() < 0.2 else 0] += 2 * sc
        X = [[num(v) for v in r] for r in X]
        N = rng.choice(["20000", "50000", "100000"] if m * k <= 20 else ["20000"])
        ps = rng.sample(range(m), m)
        ev = [rtk(X, m, N, str(rng.getrandbits(64))), rtk([[r[s] for s in ps] for r in X], m, N, str(rng.getrandbits(30)), "sn"),
              rtk(X, m, rng.choice(["0", "1", "2", "5"]), str(rng.getrandbits(10))), rtk(X, m, "", "", rng.choice(["ns", "from"]))]
        yield {"kt": "str", "ev": ev}
    for i in range(n):
        f = sample_style(rng)
        m = rng.choice([2, 3, 5, 8])
        X = table(rng, f, rng.choice([1, 2, 5, 20]), m)
        yield {"kt": "str", "ev": [rtk(X, m, str(rng.randint(1, 200)), str(rng.getrandbits(64)))]}


def c16(rng, n):
    seeds = ["0", "1", "42", str(2 ** 32), str(2 ** 63), str(2 ** 64 - 1)]
    for i in range(n):
        f = sample_style(rng)
        if i % 2 == 0:
            x = [[num(f()), num(f())] for _ in range(rng.choice([2, 3, 5, 12]))]
            run = lambda N, s, o="ns": boot(x, N, s, o)
        else:
            m = rng.choice([2, 3, 4])
            X = table(rng, f, rng.choice([2, 3, 8]), m)
            run = lambda N, s, o="ns": rtk(X, m, N, s, o)
        s1, s2 = rng.sample(seeds + [str(rng.getrandbits(64))], 2)
        N = str(rng.choice([1, 7, 50, 97, 200]))
        ev = [run(N, s1), run(N, s1, "sn"), run(N, s2, "sn"), run(N, s1), run(N, s2), run(N, ""), run(N, "last"), run(N, "last", "sn"),
              run("0", s1), run("1", s1, "sn"), run("0", s1, "sn"), run("", s1), run("10000", s1, "sn"), run("", "", "from"), run("10000", "last")]
        again = run(N, s1)
        again["sets"] = [["seed", s2], ["n", "3"], ["n", N], ["seed", s1]]      # the last of a kind counts
        ev.append(again)
        yield {"kt": "str", "ev": ev}


def c17(rng, n):
    big = [0.1, 0.2, 0.3, 0.7, 1 / 3, 1e-7, 123.456, 1e10]
    for i in range(n):
        ev = []
        for k in (0, 1, 2, 3, rng.choice([7, 10, 20, 33])):
            c = rng.choice(big)
            b = [rng.choice([0.0, 1.0, 0.25, 3.5]) for _ in range(k)]
            const = [[num(c), "0"] for _ in range(k)]
            zero = [[num(v), num(v)] for v in b]
            f = sample_style(rng)
            anyx = [[num(f()), num(f())] for _ in range(k)]
            for x in (const, zero, anyx):
                ev.append({"op": "ttest", "x": x, "levels": levels(rng, True)})
                ev.append(boot(x, str(rng.choice([0, 1, 5, 50])), str(rng.getrandbits(40))))
        yield {"kt": "str", "ev": ev}
        ev = []
        for _ in range(10):
            m, k = rng.choice([0, 1, 2, 3, 5]), rng.choice([0, 1, 2, 3, 6])
            f = sample_style(rng)
            style = rng.randint(0, 5)
            if style == 0:        # additive: zero residual
                a = [rng.randint(-4, 4) / 4.0 for _ in range(m)]
                b = [rng.randint(-4, 4) / 4.0 for _ in range(k)]
                X = [[a[s] + b[t] for s in range(m)] for t in range(k)]
            elif style == 1:
                c = rng.choice(big)
                X = [[c for _ in range(m)] for t in range(k)]
            elif style == 2:
                c = [rng.choice(big) for _ in range(m)]
                X = [[c[s] for s in range(m)] for t in range(k)]
            else:
                X = [[f() for _ in range(m)] for t in range(k)]
            X = [[num(v) for v in r] for r in X]
            if X and rng.random() < 0.4:
                r = rng.choice([0, len(X) - 1, rng.randrange(len(X))])
                if rng.random() < 0.5 and X[r]:
                    X[r] = X[r][:-1]
                else:
                    X[r] = X[r] + ["1"]
            ev.append({"op": "anova", "x": X, "m": m, "levels": levels(rng, True)})
            ev.append({"op": "tukey", "x": X, "m": m})
            ev.append(rtk(X, m, str(rng.choice([0, 1, 20])), str(rng.getrandbits(40))))
        yield {"kt": "str", "ev": ev}


# ------------------------------------------------------------------ large inputs
def big_keys(kt, n):
    """n ids whose order as text is not that of the type"""
    if kt == "u64":
        return [str(i * 7 + 1) for i in range(n)]
    if kt == "i32":
        return [str(i - n // 2) for i in range(n)]
    return ["d%d" % i for i in range(n)]


def more_keys(kt, n):
    return big_keys(kt, n + n // 2) if kt != "i32" else [str(i - n // 2) for i in range(n + n // 2)]


def dense(rng, ids):
    if len(ids) > 65535:      # more relevant documents than 16 bits count
        return [[d, num(rng.choice([1, 1, 2]) if i % 4000 else 0)] for i, d in enumerate(ids)]
    return [[d, num(rng.choice([0, 1, 1, 1, 2]))] for d in ids]


def sparse(rng, ids, deep=False):
    """about 25 judged documents, at all depths, or in the last tenth only"""
    n = len(ids)
    if deep:
        return [[ids[i], num(rng.choice([1, 1, 2]))] for i in sorted({n - 1 - rng.randrange(n // 10) for _ in range(5)} | {n - 3})]
    at = {0, n // 2, n - 1, n - 2} | {min(n - 1, int(n * 10 ** -rng.uniform(0, 3))) for _ in range(20)}
    return [[ids[i], num(rng.choice([0, 1, 1, 2, 3]) if i != n - 1 else 1)] for i in sorted(at)]


def large(prop, rng, n):
    """a query with n documents, or n queries"""
    kt = rng.choice(["str", "u64", "i32", "rev"])
    ids = big_keys(kt, n)
    rng.shuffle(ids)
    q = ids[0]
    P = [[q, d, num(x)] for d, x in zip(ids, [float(n - i // rng.choice([1, 3])) for i in range(n)])]
    ks = [0, n, n - 1, n + 1, n // 2, 255, 256, 257]
    if prop in ("C01", "C02"):
        T = [[q, d, x] for d, x in dense(rng, ids)]
        many = [[a, b, num(pred(rng, "ties"))] for a in ids[:n // 2] for b in rng.sample(ids[:5], 2)]
        again = [P[0], P[-1], P[n // 2], [q, ids[-1], "7"]]
        sh = lambda x: rng.sample(x, len(x))
        ev = [{"op": "from", "kind": "pred", "recs": sh(P), "as": "p"}, {"op": "from", "kind": "true", "recs": sh(T), "as": "t"},
              {"op": "from", "kind": "pred", "recs": sh(P), "as": "p2"}, {"op": "from", "kind": "pred", "recs": many, "as": "m"}]
        if prop == "C01":
            ev += [{"op": "copy", "s": "p", "via": "builder", "as": "c"}, {"op": "copy", "s": "m", "via": "bulk", "as": "d"},
                   {"op": "get", "s": "p", "q": q, "d": ids[-1]}, {"op": "get", "s": "p", "q": ids[1], "d": ids[-1]}]
            if n > 50000:
                return {"kt": kt, "ev": [{"op": "from", "kind": "true", "recs": sh([[a, b, "1"] for a in ids[:n // 1000] for b in ids[:1000]]), "as": "t"}]}
            ev += [{"op": "from", "kind": "pred", "recs": P + [x], "as": "x"} for x in again]
            ev += [{"op": "from", "kind": "pred", "recs": many + [many[0]], "as": "x"}, {"op": "dump", "s": "t"}, {"op": "into", "s": "m"}, {"op": "into", "s": "t"}]
            if n <= 1200:
                ev += [{"op": "new", "b": "b", "kind": "true"}] + [{"op": "add", "b": "b", "q": r[0], "d": r[1], "s": r[2]} for r in T + [T[0], T[-1]]]
                ev += [{"op": "build", "b": "b", "as": "y"}]
        return {"kt": kt, "ev": ev}
    if prop in ("C03", "C04", "C05", "C06"):
        assert set(more_keys(kt, n)[:n]) == set(ids)
        which = {"C03": METRICS[:6], "C04": METRICS[6:9], "C05": METRICS[9:], "C06": rng.sample(METRICS, 4)}[prop]
        few = prop != "C03"
        T = [[q, d, x] for d, x in (sparse(rng, ids) if few else dense(rng, ids))]
        if few and prop != "C05":      # many judged non-relevant documents
            T += [[q, d, "0"] for d in ids if d not in {t[1] for t in T} and rng.random() < 0.5]
        ev = [{"op": "from", "kind": "true", "recs": T, "as": "t"}, {"op": "from", "kind": "pred", "recs": P, "as": "p"}]
        if prop == "C06":
            tail = P[-3:]
            ev.append({"op": "from", "kind": "pred", "recs": P[:-3], "as": "p2"})
            ev.append({"op": "from", "kind": "pred", "recs": P[:-3] + [[q, d, num(-1.0 - i)] for i, (_, d, _) in enumerate(tail[::-1])], "as": "p3"})
        if prop == "C04" and n < 50000:
            D = [[q, d, num(rng.choice([0, 0, 1, 1, 2]))] for d in ids]
            ev.append({"op": "from", "kind": "true", "recs": D, "as": "v"})
            for m in which:
                ev.append({"op": "eval", "t": "v", "p": "p", "m": m, "k": "0", "as": m + "v"})
        if prop == "C03":
            # hardly any of many relevant documents is retrieved, and late
            U = [[q, d, x] for d, x in sparse(rng, ids, True)][-2:] + [[q, i, "1"] for i in more_keys(kt, n)[n:]]
            ev.append({"op": "from", "kind": "true", "recs": U, "as": "u"})
            for m in which:
                for k in [0, n] if m not in NOCUT else [0]:
                    ev.append({"op": "eval", "t": "u", "p": "p", "m": m, "k": str(k), "as": "%su%d" % (m, k)})
        if few:
            # all that is judged is at the end: a few relevant documents and a few others between them
            U = sparse(rng, ids, True)
            seen = {u[0] for u in U}
            U = [[q, d, x] for d, x in U] + [[q, d, "0"] for d in {ids[n - 1 - rng.randrange(n // 10)] for _ in range(5)} | {ids[n - n // 10]} if d not in seen]
            ev.append({"op": "from", "kind": "true", "recs": U, "as": "u"})
            for m in which:
                ev.append({"op": "eval", "t": "u", "p": "p", "m": m, "k": "0", "as": m + "u"})
        for m in which:
            for k in [0] if m in NOCUT else sorted(set(rng.sample(ks, 3)) | {0, n}):
                for p in ("p",) if prop != "C06" else ("p", "p2", "p3"):
                    ev.append({"op": "eval", "t": "t", "p": p, "m": m, "k": str(k), "as": "%s%d%s" % (m, k, p)})
        return {"kt": kt, "ev": ev}
    if prop == "C07":
        T = [[a, d, num(judg(rng, "graded"))] for a in ids for d in ids[:rng.randint(1, 2)]]
        P = [[a, d, num(pred(rng, "any"))] for a in ids for d in ids[:rng.randint(1, 2)]]
        ev = [{"op": "from", "kind": "true", "recs": T, "as": "t"}, {"op": "from", "kind": "pred", "recs": P, "as": "p"},
              {"op": "from", "kind": "true", "recs": [t for t in T if t[0] != ids[-1]], "as": "u"},
              {"op": "from", "kind": "pred", "recs": [t for t in P if t[0] in ids[n // 3:]], "as": "o"}]
        for t, p in (("t", "p"), ("u", "p"), ("t", "o")):
            for m, k in (("dcg", 0), ("precision", 2), ("bpref", 0)):
                ev.append({"op": "eval", "t": t, "p": p, "m": m, "k": str(k), "as": t + p + m})
        return {"kt": kt, "ev": ev}
    if prop == "C09":
        ids = big_keys("str", n)
        T = ["%s 0 %s %d" % (rng.choice(ids[:3]), d, rng.randint(-1, 3)) for d in ids]
        P = ["%s\tQ0\t%s\t%d\t%r\ttag" % (rng.choice(ids[:3]), d, i, rng.randint(0, 4000) / 8) for i, d in enumerate(ids)]
        a = [{"op": "trec", "kind": "true", "lines": T, "as": "t"}, {"op": "trec", "kind": "pred", "lines": P, "as": "p"},
             {"op": "trec", "kind": "true", "lines": T + [T[0]], "as": "x"}, {"op": "trec", "kind": "pred", "lines": P + [P[n // 2]], "as": "x"},
             {"op": "trec", "kind": "pred", "lines": P + ["q 0 d 1 x"], "as": "x"}, {"op": "trec", "kind": "true", "lines": T + ["q 0 d"], "as": "x"}]
        return {"kt": "str", "ev": a}
    if prop == "C10":
        if n > 3000:
            x = [[[a, num(rng.random())] for a in rng.sample(ids, n)] for _ in range(2)]
            y = sorted(x[1], key=lambda e: ids.index(e[0])) if n < 9999 else x[1]
            z = [y[:-1] + [["99999" if kt not in ("str", "rev") else "e", "1"]], y[:-1]]
            return {"kt": kt, "ev": [{"op": "pairs", "maps": x}] + [{"op": "pairs", "maps": [x[0], w]} for w in z]}
        few = ids[:max(3, n // 200)]
        maps = lambda m, xs: [[[a, num(rng.random())] for a in rng.sample(xs, len(xs))] for _ in range(m)]
        wide = maps(n // 10, few)
        ev = [{"op": "pairs", "maps": maps(2, ids)}, {"op": "tuples", "maps": maps(3, ids)}, {"op": "tuples", "maps": wide},
              {"op": "tuples", "maps": wide[:-1] + [wide[-1][1:]]}, {"op": "tuples", "maps": wide[:-1] + [wide[-1][1:] + [["77777", "1"]]]}]
        x = maps(2, ids)
        ev.append({"op": "pairs", "maps": [x[0], sorted(x[1], key=lambda e: ids.index(e[0]))[:-1]]})
        x[1][rng.randrange(n)][0] = "99999" if kt not in ("str", "rev") else "e"
        ev.append({"op": "pairs", "maps": x})
        return {"kt": kt, "ev": ev}
    return None


# sizes: quick, thorough
LARGE = {"C01": ([60, 270, 1030, 4100, 66000], [129, 300, 1100, 10050]), "C02": ([130, 270, 1030, 4100, 66000], [520, 1100, 10050, 66000]),
         "C03": ([270, 1030, 4100, 66000], [520, 1100, 10050, 66000, 66000]), "C04": ([270, 1030, 4100, 66000], [520, 1100, 10050]),
         "C05": ([270, 1030, 4100, 66000], [520, 1100, 10050]), "C06": ([270, 1030, 4100], [520, 1100, 10050]), "C07": ([270, 1030, 4100], [520, 4200, 10050]),
         "C09": ([270, 1030, 4100], [520, 4200, 10050]), "C10": ([270, 1030, 4100, 66000], [520, 2100, 10050])}


def script(prop, seed, n, thorough=False):
    rng = random.Random("%s/%d" % (prop, seed))
    segs = list(globals()[prop.lower()](rng, n))
    if prop in LARGE:
        rng = random.Random("large/%s/%d" % (prop, seed))
        segs += [large(prop, rng, k) for k in LARGE[prop][0] + (LARGE[prop][1] if thorough else [])]
    return segs


