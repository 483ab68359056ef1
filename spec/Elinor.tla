------------------------------- MODULE Elinor -------------------------------
(***************************************************************************)
(* The library as a state machine.                                         *)
(*                                                                         *)
(* State: relevance-store builders under construction, finished stores,    *)
(* evaluations done so far, and the runs of the randomized tests.  Every   *)
(* call of the public API is an action; its argument r is the result that  *)
(* the call gave.  An action is enabled only for the results that the      *)
(* specification allows, so a recorded history is a behaviour of this      *)
(* module exactly when every result in it is right.                        *)
(*                                                                         *)
(* Each requirement carries the id of the property it belongs to (see      *)
(* properties.jsonl).  Req(id, P) demands P only when id is in Focus: a    *)
(* check of one property adopts whatever the implementation answered about *)
(* the others, so that it reports its own property and no other.           *)
(***************************************************************************)
EXTENDS Trec, JsonRec, Resample

CONSTANT Focus

VARIABLES bld,   \* builder name -> [kind, map]
          sto,   \* store name -> [kind, map, rank]
          evs,   \* evaluation name -> [m, k, scores, J, R, P]
          mem    \* results of randomized tests

lvars == <<bld, sto, evs, mem>>

\* (an equation, so that TLC evaluates it as a condition and not as alternatives)
Req(id, P) == (id \in Focus => P) = TRUE

LInit == bld = <<>> /\ sto = <<>> /\ evs = <<>> /\ mem = {}

Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Elems(s)   == { s[i] : i \in DOMAIN s }
\* sequence of pairs <<key, value>> to a function; the values are numbers
NumFun(ps) == FunOf([i \in DOMAIN ps |-> <<ps[i][1], RParse(ps[i][2])>>])
Distinct(ps) == Cardinality({ ps[i][1] : i \in DOMAIN ps }) = Len(ps)
Triples(S) == UNION { { <<q, d, S[q][d]>> : d \in DOMAIN S[q] } : q \in DOMAIN S }
NumRecs(rs) == [i \in DOMAIN rs |-> <<rs[i][1], rs[i][2], RParse(rs[i][3])>>]

-----------------------------------------------------------------------------
(***************************************************************************)
(* Stores.  The description v of a store that the implementation gives:    *)
(*   nq, nd  counts            ids   the query ids                         *)
(*   maps    query -> pairs    ranks query -> ranked pairs                 *)
(*   recs    exported records                                              *)
(***************************************************************************)
RepMap(v)  == FunOf([i \in DOMAIN v.maps |-> <<v.maps[i][1], NumFun(v.maps[i][2])>>])
RepRank(v) == FunOf([i \in DOMAIN v.ranks |->
                 <<v.ranks[i][1], LET ps == v.ranks[i][2] IN TLCEval([j \in DOMAIN ps |-> ps[j][1]])>>])

SamePairs(ps, M) == Len(ps) = Cardinality(DOMAIN M) /\ Distinct(ps) /\ NumFun(ps) = M
RecsOK(rs, S) == Len(rs) = NDocs(S) /\ Elems(NumRecs(rs)) = Triples(S)

\* C01: the description is that of exactly S
HoldsExactly(v, S) ==
  /\ v.nq = NQueries(S) /\ v.nd = NDocs(S)
  /\ Len(v.ids) = NQueries(S) /\ Elems(v.ids) = DOMAIN S
  /\ Len(v.maps) = NQueries(S) /\ { v.maps[i][1] : i \in DOMAIN v.maps } = DOMAIN S
  /\ \A i \in DOMAIN v.maps : SamePairs(v.maps[i][2], S[v.maps[i][1]])
  /\ Len(v.ranks) = NQueries(S) /\ { v.ranks[i][1] : i \in DOMAIN v.ranks } = DOMAIN S
  /\ RecsOK(v.recs, S)

\* C02: every ranked list is the ranking of its query, and carries the scores
RankedRight(kt, v, S) ==
  \A i \in DOMAIN v.ranks :
    LET ps == v.ranks[i][2]
        q  == v.ranks[i][1]
        ds == [j \in DOMAIN ps |-> ps[j][1]]
    IN  q \in DOMAIN S => /\ IsRanking(kt, S[q], ds)
                          /\ \A j \in DOMAIN ps : RParse(ps[j][2]) = S[q][ps[j][1]]

Adopt(kt, kind, S, v) ==
  LET map == IF "C01" \in Focus THEN S ELSE RepMap(v)
      rep == RepRank(v)
  IN  [kind |-> kind, map |-> map,
       rank |-> [q \in DOMAIN map |->
                   IF q \in DOMAIN rep /\ IsPermOf(DOMAIN map[q], rep[q])
                   THEN rep[q] ELSE Ranking(kt, map[q])]]

StoreOK(kt, S, v) ==
  /\ Req("C01", HoldsExactly(v, S))
  /\ Req("C02", RankedRight(kt, v, IF "C01" \in Focus THEN S ELSE RepMap(v)))

NewBuilder(b, kind) ==
  /\ bld' = (b :> [kind |-> kind, map |-> EmptyStore]) @@ bld
  /\ UNCHANGED <<sto, evs, mem>>

AddRecord(b, q, d, x, r) ==
  IF b \notin DOMAIN bld THEN r.st = "skip" /\ UNCHANGED lvars
  ELSE LET S == bld[b].map
       IN  /\ Req("C01", r.st = IF Has(S, q, d) THEN "DuplicateEntry" ELSE "ok")
           /\ bld' = IF r.st = "ok" /\ ~Has(S, q, d)
                     THEN [bld EXCEPT ![b].map = Put(S, q, d, RParse(x))] ELSE bld
           /\ UNCHANGED <<sto, evs, mem>>

Build(kt, b, as, r) ==
  IF b \notin DOMAIN bld THEN r.st = "skip" /\ UNCHANGED lvars
  ELSE /\ Req("C01", r.st = "ok")
       /\ r.st = "ok" => StoreOK(kt, bld[b].map, r.v)
       /\ sto' = IF r.st = "ok" THEN (as :> Adopt(kt, bld[b].kind, bld[b].map, r.v)) @@ sto ELSE sto
       /\ bld' = Drop(bld, b)
       /\ UNCHANGED <<evs, mem>>

\* bulk import
FromRecords(kt, kind, recs, as, r) ==
  LET rs == NumRecs(recs)
  IN  /\ Req("C01", r.st = IF HasDup(rs) THEN "DuplicateEntry" ELSE "ok")
      /\ r.st = "ok" => StoreOK(kt, FromRecs(rs), r.v)
      /\ sto' = IF r.st = "ok" THEN (as :> Adopt(kt, kind, FromRecs(rs), r.v)) @@ sto ELSE sto
      /\ UNCHANGED <<bld, evs, mem>>

\* exported records fed back, through a builder or in bulk
Copy(kt, s, as, r) ==
  IF s \notin DOMAIN sto THEN r.st = "skip" /\ UNCHANGED lvars
  ELSE /\ Req("C01", r.st = "ok")
       /\ r.st = "ok" => StoreOK(kt, sto[s].map, r.v)
       /\ sto' = IF r.st = "ok" THEN (as :> Adopt(kt, sto[s].kind, sto[s].map, r.v)) @@ sto ELSE sto
       /\ UNCHANGED <<bld, evs, mem>>

Describe(kt, s, r) ==
  /\ IF s \notin DOMAIN sto THEN r.st = "skip"
     ELSE Req("C01", r.st = "ok") /\ (r.st = "ok" => StoreOK(kt, sto[s].map, r.v))
  /\ UNCHANGED lvars

\* the consuming export
IntoRecords(s, r) ==
  IF s \notin DOMAIN sto THEN r.st = "skip" /\ UNCHANGED lvars
  ELSE /\ Req("C01", r.st = "ok" /\ RecsOK(r.recs, sto[s].map))
       /\ sto' = Drop(sto, s)
       /\ UNCHANGED <<bld, evs, mem>>

\* lookups: score of (q, d), and whether q has a map and a ranked list
GetScore(s, q, d, r) ==
  /\ IF s \notin DOMAIN sto THEN r.st = "skip"
     ELSE Req("C01", /\ r.st = "ok"
                     /\ r.some = Has(sto[s].map, q, d)
                     /\ r.some => RCmp(r.score, sto[s].map[q][d]) = 0
                     /\ r.map = (q \in DOMAIN sto[s].map)
                     /\ r.rank = (q \in DOMAIN sto[s].map))
  /\ UNCHANGED lvars

-----------------------------------------------------------------------------
(***************************************************************************)
(* Evaluation.  r: scores (pairs <<query, score>>), mean, var, sd, and the *)
(* metric the evaluation says it used.                                     *)
(***************************************************************************)
MeanOf(vs) == RDiv(RSum(vs), RInt(Len(vs)))
AggregatesOK(r) ==
  LET vs == [i \in DOMAIN r.scores |-> RParse(r.scores[i][2])]
      n  == Len(vs)
      M  == RMaxAbs(vs)
      ss == SSDev(vs)
      dev == RMul(RMul(RInt(4 * n + 8), U), M)
  IN  (\A i \in DOMAIN vs : IsFin(vs[i]) /\ RLt(RAbs(vs[i]), "1e100")) =>
        IF n = 0 THEN TRUE
        ELSE /\ NearMean(r.mean, MeanOf(vs), n, M)
             /\ NearSS(RMul(r.var, RInt(n)), ss, n, dev) /\ RLe("0", r.var)
             /\ RClose(RMul(r.sd, r.sd), r.var, "1e-12", "0") /\ RLe("0", r.sd)

SameScore(a, b) == IF IsFin(a) /\ IsFin(b) THEN RClose(a, b, "1e-12", "0") ELSE a = b

\* the per-query facts that an evaluation is remembered by
Remember(m, k, T, P, r) ==
  LET f == NumFun(r.scores)
      Q == DOMAIN f \cap DOMAIN P.map \cap DOMAIN T.map
  IN  [m |-> m, k |-> k,
       score |-> [q \in Q |-> f[q]],
       J |-> [q \in Q |-> T.map[q]], R |-> [q \in Q |-> P.rank[q]], M |-> [q \in Q |-> P.map[q]],
       view |-> IF "C06" \in Focus THEN [q \in Q |-> View(m, k, T.map[q], P.rank[q])] ELSE <<>>]

\* Relations between two evaluations of the same metric
Related(e, f) ==
  e.m = f.m =>
    \A q \in DOMAIN e.score : \A u \in IF Cardinality(DOMAIN f.score) > 60 THEN {q} \cap DOMAIN f.score ELSE DOMAIN f.score :
      \* C07: a query's score depends on its own judgments and predictions only
      /\ Req("C07", (e.k = f.k /\ e.J[q] = f.J[u] /\ e.M[q] = f.M[u] /\ e.R[q] = f.R[u])
                       => SameScore(e.score[q], f.score[u]))
      \* C02: nor on the order of insertion, or the scale of the predictions
      /\ Req("C02", (e.k = f.k /\ e.J[q] = f.J[u] /\ SameOrder(e.M[q], f.M[u], e.R[q]))
                       => SameScore(e.score[q], f.score[u]))
      \* C06: only what is seen within the cutoff matters, and promotion never hurts
      /\ Req("C06", /\ e.view[q] = f.view[u] => SameScore(e.score[q], f.score[u])
                    /\ (e.k = f.k /\ e.J[q] = f.J[u]) =>
                          /\ Promotes(e.J[q], e.R[q], f.R[u]) => NotLower(f.score[u], e.score[q])
                          /\ Promotes(e.J[q], f.R[u], e.R[q]) => NotLower(e.score[q], f.score[u]))

\* r.direct: what compute_metric answers, where it is not the same
DirectOK(r) == "direct" \in DOMAIN r =>
  /\ r.direct.st = r.st
  /\ r.st = "ok" => /\ Len(r.direct.scores) = Len(r.scores)
                   /\ \A i \in DOMAIN r.scores : /\ r.direct.scores[i][1] = r.scores[i][1]
                                                 /\ SameScore(RParse(r.scores[i][2]), RParse(r.direct.scores[i][2]))

Evaluate(t, p, m, k, as, r) ==
  IF t \notin DOMAIN sto \/ p \notin DOMAIN sto THEN r.st = "skip" /\ UNCHANGED lvars
  ELSE
  LET T == sto[t]
      P == sto[p]
      missing == ~(DOMAIN P.map \subseteq DOMAIN T.map)
  IN
  /\ Req("C07", r.st = (IF missing THEN "MissingEntry" ELSE "ok") /\ DirectOK(r))
  /\ Req(PropOf(m), missing \/ r.st = "ok")
  /\ r.st = "ok" =>
       /\ Req("C07", /\ Distinct(r.scores)
                     /\ { r.scores[i][1] : i \in DOMAIN r.scores } = DOMAIN P.map
                     /\ r.m = m /\ r.k = (IF m \in NoCutoff THEN "0" ELSE k)
                     /\ AggregatesOK(r))
       /\ Req(PropOf(m), \A i \in DOMAIN r.scores :
             LET q == r.scores[i][1]
                 v == RParse(r.scores[i][2])
             IN  (q \in DOMAIN T.map /\ q \in DOMAIN P.map) =>
                    LET x == Score(m, k, T.map[q], P.rank[q])
                    IN  ScoreClose(v, x) /\ ((x # "NaN" /\ IsFin(v)) => Bounded(m, v)))
       /\ IF Focus \cap {"C02", "C06", "C07"} = {} THEN evs' = evs     \* nothing relates evaluations
          ELSE LET e == Remember(m, k, T, P, r)
               IN  /\ \A n \in DOMAIN evs : Related(evs[n], e)
                   /\ Related(e, e)
                   /\ evs' = (as :> e) @@ evs
  /\ r.st # "ok" => evs' = evs
  /\ UNCHANGED <<bld, sto, mem>>

-----------------------------------------------------------------------------
\* Metric names (C08)
ParseName(s, r) ==
  /\ Req("C08", LET p == ParseMetric(s)
                IN  IF p.ok THEN r.st = "ok" /\ r.m = p.m /\ r.k = p.k ELSE r.st = "InvalidFormat")
  /\ UNCHANGED lvars
\* r: the printed text, and the metric that parsing it gives
PrintName(m, k, r) ==
  /\ Req("C08", /\ r.st = "ok" /\ r.text = PrintMetric(m, k)
                /\ ParseMetric(r.text) = [ok |-> TRUE, m |-> m, k |-> IF m \in NoCutoff THEN "0" ELSE k]
                /\ r.back = "same")
  /\ UNCHANGED lvars

-----------------------------------------------------------------------------
\* TREC text (C09)
ReadTrec(kt, kind, lines, as, r) ==
  LET rs == ReadFile(kind, lines)
      er == FileErrors(rs)
      S  == FromRecs(GoodRecs(rs))
  IN  /\ Req("C09", IF er = {} THEN r.st = "ok" ELSE r.st \in er)
      /\ r.st = "ok" =>
           /\ Req("C09", HoldsExactly(r.v, S))
           /\ Req("C02", RankedRight(kt, r.v, RepMap(r.v)))
           /\ sto' = (as :> Adopt(kt, kind, IF "C09" \in Focus THEN S ELSE RepMap(r.v), r.v)) @@ sto
      /\ r.st # "ok" => sto' = sto
      /\ UNCHANGED <<bld, evs, mem>>

-----------------------------------------------------------------------------
\* JSON records (C22)
\* r: the fields of the JSON text, and the record read back from it
WriteJson(kind, q, d, x, r) ==
  /\ Req("C22", /\ r.st = "ok"
                /\ Len(r.fields) = 3 /\ { r.fields[i][1] : i \in 1..3 } = FieldNames
                /\ ReadableRec(kind, r.fields)
                /\ Field(r.fields, "query_id")[3] = q /\ Field(r.fields, "doc_id")[3] = d
                /\ RecNear(kind, Field(r.fields, "score")[3], x)
                /\ r.back.st = "ok" /\ r.back.q = q /\ r.back.d = d /\ RecNear(kind, r.back.s, x))
  /\ UNCHANGED lvars
ReadJson(kind, fields, r) ==
  /\ Req("C22", IF ReadableRec(kind, fields)
                THEN /\ r.st = "ok" /\ r.q = Field(fields, "query_id")[3] /\ r.d = Field(fields, "doc_id")[3]
                     /\ RecNear(kind, r.s, Field(fields, "score")[3])
                ELSE r.st = "rejected")
  /\ UNCHANGED lvars

-----------------------------------------------------------------------------
(***************************************************************************)
(* Pairing (C10).  maps: a sequence of score maps, each a sequence of      *)
(* <<query, score>> in any order.                                          *)
(***************************************************************************)
Paired(kt, fs) == LET ks == TLCEval(SortKeys(kt, DOMAIN fs[1]))
                  IN  [i \in DOMAIN ks |-> [j \in DOMAIN fs |-> fs[j][ks[i]]]]
\* the same of recorded rows, without looking up every query
IsPaired(kt, fs, v) == LET ks == TLCEval(SortKeys(kt, DOMAIN fs[1]))
                       IN  /\ Len(v) = Len(ks)
                           /\ \A i \in DOMAIN v : Len(v[i]) = Len(fs)
                           /\ \A j \in DOMAIN fs : FunOf([i \in DOMAIN ks |-> <<ks[i], RParse(v[i][j])>>]) = fs[j]
Pair(kt, maps, r) ==
  LET fs == TLCEval([j \in DOMAIN maps |-> NumFun(maps[j])])
  IN  /\ Req("C10",
           IF Len(maps) = 0 \/ \E j \in DOMAIN fs : DOMAIN fs[j] # DOMAIN fs[1]
           THEN r.st = "InvalidArgument"
           ELSE /\ r.st = "ok"
                /\ IsPaired(kt, fs, r.v))
      /\ UNCHANGED lvars

-----------------------------------------------------------------------------
(***************************************************************************)
(* Statistical tests.  A level is asked for with [a, moe, ci].             *)
(***************************************************************************)
LevelsRejected(lv) ==
  \A i \in DOMAIN lv :
    LET want == IF LevelOK(lv[i].a) THEN {"ok"}
                ELSE IF "nan-level" \in Open /\ lv[i].a = "NaN" THEN {"InvalidArgument", "panic"}
                ELSE {"InvalidArgument"}
    IN  lv[i].moe.st \in want /\ ("ci" \in DOMAIN lv[i] => lv[i].ci.st \in want)
InUnit(p) == IsFin(p) /\ RLe("0", p) /\ RLe(p, "1.000000001")

TTest(prs, r) ==
  LET want == TExpect(prs)
  IN  /\ Req("C17", /\ r.st \in want
                    /\ r.st = "ok" =>
                         /\ IsFin(r.mean) /\ IsFin(r.var) /\ IsFin(r.es) /\ IsFin(r.t) /\ InUnit(r.p)
                         /\ LevelsRejected(r.lv))
      /\ Req("C11", want = {"ok"} => r.st = "ok" /\ TTestOK(prs, r))
      /\ UNCHANGED lvars

Anova(X, m, r) ==
  LET want == AExpect(X, m)
  IN  /\ Req("C17", /\ r.st \in want \cup AKnown(X, m)
                    /\ r.st = "ok" /\ AKnown(X, m) = {} =>
                         /\ \A f \in {"sA", "sB", "sE", "vA", "vB", "vE", "fA", "fB"} : IsFin(r[f])
                         /\ InUnit(r.pA) /\ InUnit(r.pB)
                         /\ \A i \in DOMAIN r.sm : IsFin(r.sm[i])
                         /\ \A i \in DOMAIN r.tm : IsFin(r.tm[i])
                         /\ LevelsRejected(r.lv))
      /\ Req("C13", want = {"ok"} => r.st = "ok" /\ AnovaOK(X, m, r))
      /\ UNCHANGED lvars

Tukey(X, m, r) ==
  LET want == AExpect(X, m)
  IN  /\ Req("C17", /\ r.st \in want \cup AKnown(X, m)
                    /\ r.st = "ok" /\ AKnown(X, m) = {} => \A i \in DOMAIN r.es : \A j \in DOMAIN r.es[i] : IsFin(r.es[i][j]))
      /\ Req("C14", want = {"ok"} => r.st = "ok" /\ TukeyOK(X, m, r))
      /\ UNCHANGED lvars

(***************************************************************************)
(* Randomized tests.  sets: the settings given to the tester, in order, as *)
(* <<"n", number>> and <<"seed", number>>; the last of a kind counts.  A   *)
(* run is remembered by its samples, the effective number of resamples and *)
(* the seed it used.                                                       *)
(***************************************************************************)
Setting(sets, what, default) ==
  LET of == SelectSeq(sets, LAMBDA x : x[1] = what)
  IN  IF of = <<>> THEN default ELSE of[Len(of)][2]
EffN(sets)    == RMax(Setting(sets, "n", "10000"), "1")
EffSeed(sets) == Setting(sets, "seed", "")               \* "": chosen by the test
Run(op, x, sets, r) == [op |-> op, x |-> x, n |-> EffN(sets),
                        seed |-> IF EffSeed(sets) = "" THEN r.seed ELSE EffSeed(sets), p |-> r.p]
Reproduces(run) == \A e \in mem : [e EXCEPT !.p = run.p] = run => e = run
Settled(sets, r) == r.n = EffN(sets) /\ (EffSeed(sets) # "" => r.seed = EffSeed(sets))

Bootstrap(prs, sets, r) ==
  LET want == TExpect(prs)
      run  == Run("boot", prs, sets, r)
  IN
  /\ Req("C17", r.st \in want /\ (r.st = "ok" => InUnit(r.p)))
  /\ Req("C12", want = {"ok"} => r.st = "ok" /\ BootOK(Diffs(prs), r.p, EffN(sets)))
  /\ Req("C16", r.st = "ok" => Settled(sets, r) /\ r.topics = Len(prs) /\ Reproduces(run))
  /\ Req("C16", want = {"ok"} => r.st = "ok")
  /\ mem' = IF r.st = "ok" /\ "C16" \in Focus THEN mem \cup {run} ELSE mem
  /\ UNCHANGED <<bld, sto, evs>>

RExpect(X, m) == IF ~Rect(X, m) \/ Len(X) = 0 THEN {"InvalidArgument"}
                 ELSE IF m < 2 THEN {"ok", "InvalidArgument"} ELSE {"ok"}
RTukey(X, m, sets, r) ==
  LET want == RExpect(X, m)
      run  == Run("rtukey", X, sets, r)
  IN
  /\ Req("C17", r.st \in want /\ (r.st = "ok" => \A i \in DOMAIN r.p : \A j \in DOMAIN r.p[i] : InUnit(r.p[i][j])))
  /\ Req("C15", (want = {"ok"} => r.st = "ok") /\ (r.st = "ok" => RTukeyOK(X, m, r.p, EffN(sets))))
  /\ Req("C16", r.st = "ok" => Settled(sets, r) /\ r.topics = Len(X) /\ r.systems = m /\ Reproduces(run))
  /\ Req("C16", want = {"ok"} => r.st = "ok")
  /\ mem' = IF r.st = "ok" /\ "C16" \in Focus THEN mem \cup {run} ELSE mem
  /\ UNCHANGED <<bld, sto, evs>>
=============================================================================
