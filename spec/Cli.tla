-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command-line tools as a state machine over a file system.           *)
(*                                                                         *)
(* State: fs, the files (path -> content); full, the sizes of the complete *)
(* outputs seen so far; seen, the outcomes so far.  Every run of a tool is *)
(* an action; its argument r is what was observed: exit code, the rows     *)
(* that were printed, the output file afterwards, the bytes that reached   *)
(* the destination, a digest of them, and the other files that changed.    *)
(*                                                                         *)
(* Contents:                                                               *)
(*   [t |-> "none"], [t |-> "dir"], [t |-> "binary"]   cannot be read      *)
(*   [t |-> "lines", lines]     text (TREC)                                *)
(*   [t |-> "jsonl", lines]     [ok, f]: an object's fields, see JsonRec   *)
(*   [t |-> "csv", sep, rows]   rows of cells                              *)
(* Runs may be disturbed (fault): "full" (the destination device is full), *)
(* "limit" (it takes a number of bytes only), "pipe" (nobody reads).       *)
(***************************************************************************)
EXTENDS Trec, JsonRec, Resample

CONSTANT Focus
VARIABLES fs, full, seen
cvars == <<fs, full, seen>>

Req(id, P) == (id \in Focus => P) = TRUE
CInit == fs = <<>> /\ full = <<>> /\ seen = <<>>

File(p) == IF p \in DOMAIN fs THEN fs[p] ELSE [t |-> "none"]
Range2(s) == { s[i] : i \in DOMAIN s }

-----------------------------------------------------------------------------
\* Is the content of a file what a tool can work with?
TrecOk(c, kind) == c.t = "lines" /\ FileErrors(ReadFile(kind, c.lines)) = {}

\* every line an object that is a record of this kind, no pair twice
Recs(c) == [i \in DOMAIN c.lines |->
              << Field(c.lines[i].f, "query_id")[3], Field(c.lines[i].f, "doc_id")[3], RParse(Field(c.lines[i].f, "score")[3]) >>]
JsonlOk(c, kind) == /\ c.t = "jsonl"
                    /\ \A i \in DOMAIN c.lines : c.lines[i].ok /\ ReadableRec(kind, c.lines[i].f)
                    /\ ~HasDup(Recs(c))

Words(s) == StrOf([i \in DOMAIN Chars(s) |-> IF Chars(s)[i] \in 65..90 THEN Chars(s)[i] + 32 ELSE Chars(s)[i]])
\* not a number, though read as one
Special(cell) == Words(cell) \in { a \o b : a \in {"", "+", "-"}, b \in {"nan", "inf", "infinity"} }
ScoreCell(cell) == PredScore(cell).ok \/ Special(cell)
TableOk(c, sep) ==
  /\ c.t = "csv" /\ c.sep = sep
  /\ Len(c.rows) >= 1
  /\ \A i \in 2..Len(c.rows) : /\ Len(c.rows[i]) = Len(c.rows[1])
                               /\ \A j \in 2..Len(c.rows[i]) : ScoreCell(c.rows[i][j])

Header(c)   == c.rows[1][1]
MetricCols(c) == SubSeq(c.rows[1], 2, Len(c.rows[1]))
TopicSeq(c) == [i \in 1..(Len(c.rows) - 1) |-> c.rows[i + 1][1]]
Topics(c)   == Range2(TopicSeq(c))
UniqueTopics(c) == Cardinality(Topics(c)) = Len(c.rows) - 1
ColOf(c, m) == CHOOSE j \in 2..Len(c.rows[1]) : c.rows[1][j] = m
\* topic -> score
ScoresOf(c, m) == LET j == ColOf(c, m)
                  IN  FunOf([i \in 1..(Len(c.rows) - 1) |-> << c.rows[i + 1][1], PredScore(c.rows[i + 1][j]).v >>])
Common(cs) == SelectSeq(MetricCols(cs[1]), LAMBDA m : \A i \in DOMAIN cs : m \in Range2(MetricCols(cs[i])))

-----------------------------------------------------------------------------
(***************************************************************************)
(* Printed tables.  A row is a sequence of cells (text); the expected row  *)
(* is a sequence of demands on them.                                       *)
(***************************************************************************)
Txt(s)  == <<"txt", s>>
Num4(x) == <<"num", x>>                       \* x rounded to four decimals
Tail4(x, p, q) == <<"tail", x, p, q>>         \* I_x(p/2, q/2) rounded
Moe4(se, nu)   == <<"moe", se, nu>>           \* half-width at 0.05
Exact(lo, hi, N) == <<"frac", lo, hi, N>>     \* fraction of N draws, exact probability between lo and hi
Fraction(N) == <<"of", N>>                    \* fraction of N draws

Half4 == "0.00005"
FourDecimals(s) == LET cs == Chars(s)
                   IN  Len(cs) >= 6 /\ cs[Len(cs) - 4] = 46 /\ PredScore(s).ok
Rounded(v, x) == RLe(RAbs(RSub(v, x)), RAdd(Half4, RMul("1e-9", RMax("1", RAbs(x)))))
\* the fraction k/N that v stands for (N <= 10000)
Kth(v, N) == RDiv(RFloor(RAdd(RMul(v, N), "0.5")), N)

CellOk(s, e) ==
  IF e[1] = "txt" THEN s = e[2]
  ELSE /\ FourDecimals(s)
       /\ LET v == RParse(s)
          IN CASE e[1] = "num"  -> Rounded(v, e[2])
               [] e[1] = "tail" -> Rounded(v, BetaReg(RRnd(e[2]), e[3], e[4]))
               [] e[1] = "moe"  ->
                    \* the tail at v -/+ rounding encloses the level
                    LET x(w) == RRnd(TArg(RDiv(w, e[2]), e[3]))
                        d    == RAdd(Half4, RMul("1e-7", v))
                    IN  /\ RLe(BetaReg(x(RAdd(v, d)), e[3], 1), "0.05")
                        /\ RLe("0.05", BetaReg(x(RMax("0", RSub(v, d))), e[3], 1))
               [] e[1] = "of"   -> RLe("0", v) /\ RLe(v, "1") /\ Rounded(v, Kth(v, e[2]))
               [] e[1] = "frac" -> /\ RLe("0", v) /\ RLe(v, "1") /\ Rounded(v, Kth(v, e[4]))
                                   /\ DevBetween(Kth(v, e[4]), e[2], e[3], e[4])
RowOk(row, es) == Len(row) = Len(es) /\ \A i \in DOMAIN es : CellOk(row[i], es[i])
RowsOk(rows, ess) == Len(rows) = Len(ess) /\ \A i \in DOMAIN ess : RowOk(rows[i], ess[i])
TxtRow(cells) == [i \in DOMAIN cells |-> Txt(cells[i])]
Title(s) == << Txt(s) >>
Flatten(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

-----------------------------------------------------------------------------
(***************************************************************************)
(* Success and completeness (C23).  valid: every input and option is.  A   *)
(* run that delivers its output is remembered by its size; a disturbed run *)
(* may only succeed when it delivered as much.                             *)
(***************************************************************************)
Exited(r) == r.st = "exit"
Disturbed(e) == e.fault.kind # "none"
Key(e) == [x \in DOMAIN e \ {"r", "lib", "fault"} |-> e[x]]
Succeeds(e, valid) ==
  /\ Req("C23", Exited(e.r))
  /\ Req("C23", e.r.code = 0 =>
                  /\ valid
                  /\ (Disturbed(e) /\ Key(e) \in DOMAIN full) =>
                        e.r.size = full[Key(e)].size /\ e.r.outsize = full[Key(e)].outsize)
  \* the generator and this module agree about what must fail
  /\ Assert(e.expect # "fail" \/ ~valid, <<"meant to be invalid", e>>)
  /\ Assert(e.expect # "ok" \/ valid, <<"meant to be valid", e>>)
Sized(e) == full' = IF Disturbed(e) \/ e.r.code # 0 THEN full
                    ELSE [x \in {Key(e)} |-> [size |-> e.r.size, outsize |-> e.r.outsize]] @@ full
\* what the property of a tool requires, of an undisturbed run on valid input
Demand(id, e, valid, P) == Req(id, (valid /\ ~Disturbed(e)) => Exited(e.r) /\ e.r.code = 0 /\ P)
Wrote(e) == fs' = IF e.out = "" \/ Disturbed(e) THEN fs ELSE (e.out :> e.r.out) @@ fs

-----------------------------------------------------------------------------
(***************************************************************************)
(* Runs keep to themselves (C24).  A run leaves what it reads alone, and a *)
(* successful one every file but its output.  The outcome of a run, task:  *)
(* its options and the contents that it reads, is always the same.         *)
(***************************************************************************)
Inputs(e) == [i \in DOMAIN e.files |-> File(e.files[i])]
Reads(e) == CASE e.op = "convert" -> {e.in} [] e.op = "evaluate" -> {e.t, e.p} [] e.op = "compare" -> Range2(e.files)
KeepsFiles(e) == /\ Range2(e.r.touched) \cap Reads(e) = {}
                 /\ (Exited(e.r) /\ e.r.code = 0) => e.r.touched = <<>>
\* the destination can take a file
Writable(p) == p # "" /\ File(p).t \notin {"dir", "device", "noparent"}
Task(e) == CASE e.op = "convert"  -> <<e.op, e.kind, e.extra, Writable(e.out), File(e.in)>>
             [] e.op = "evaluate" -> <<e.op, e.metrics, e.extra, e.tab, e.out = "", Writable(e.out), File(e.t), File(e.p)>>
             [] e.op = "compare"  -> <<e.op, e.tab, e.mode, e.nres, e.niters, e.extra, IF Len(e.files) = 1 THEN <<>> ELSE e.files, Inputs(e)>>
\* what comes out of randomized tests may differ
Fixed(e)   == e.op # "compare" \/ Len(e.files) = 1
Outcome(e) == <<e.r.st, e.r.code = 0, IF e.r.code = 0 /\ Fixed(e) THEN e.r.digest ELSE "">>
Alone(e) == /\ Req("C24", KeepsFiles(e))
            /\ Req("C24", (~Disturbed(e) /\ Task(e) \in DOMAIN seen) => Outcome(e) = seen[Task(e)])
            /\ seen' = IF Disturbed(e) \/ "C24" \notin Focus THEN seen ELSE (Task(e) :> Outcome(e)) @@ seen

-----------------------------------------------------------------------------
\* elinor-convert (C19).  lib: what the library reads from the same lines.
StoreOf(lib) == FromRecs([i \in DOMAIN lib.v.recs |-> <<lib.v.recs[i][1], lib.v.recs[i][2], RParse(lib.v.recs[i][3])>>])
Sorted(S) == Flatten([i \in DOMAIN SortKeys("str", DOMAIN S) |->
                LET q  == SortKeys("str", DOMAIN S)[i]
                    ds == Ranking("str", S[q])
                IN  [j \in DOMAIN ds |-> <<q, ds[j], S[q][ds[j]]>>]])
LineIs(kind, l, rec) ==
  /\ l.ok /\ Len(l.f) = 3 /\ { l.f[i][1] : i \in 1..3 } = FieldNames
  /\ ReadableRec(kind, l.f)
  /\ Field(l.f, "query_id")[3] = rec[1] /\ Field(l.f, "doc_id")[3] = rec[2]
  /\ RNearest(RParse(Field(l.f, "score")[3])) = rec[3]
\* JSON has no infinite numbers
Expressible(kind, c) == \A i \in DOMAIN c.lines : IsFin(ReadLine(kind, c.lines[i]).rec[3])
ConvertValid(e) == /\ e.kind \in {"true", "pred"} /\ e.extra = ""
                   /\ TrecOk(File(e.in), e.kind) /\ Expressible(e.kind, File(e.in)) /\ Writable(e.out)
Convert(e) ==
  LET valid == ConvertValid(e)
  IN  /\ Succeeds(e, valid)
      /\ Demand("C19", e, valid,
           e.lib.st = "ok" => LET want == Sorted(StoreOf(e.lib))
                              IN  /\ e.r.out.t = "jsonl" /\ Len(e.r.out.lines) = Len(want)
                                  /\ \A i \in DOMAIN want : LineIs(e.kind, e.r.out.lines[i], want[i]))
      /\ Sized(e) /\ Wrote(e) /\ Alone(e)

-----------------------------------------------------------------------------
(***************************************************************************)
(* elinor-evaluate (C18, C19).  lib: the library's evaluations of the same *)
(* records, one per metric.                                                *)
(***************************************************************************)
DefaultMetrics == <<"success@1", "success@5", "success@10", "recall@5", "recall@10", "recall@15", "recall@20",
                    "precision@5", "precision@10", "precision@15", "precision@20", "ap@5", "ap@10", "ap@15", "ap@20", "ap",
                    "rr", "ndcg@5", "ndcg@10", "ndcg@15", "ndcg@20">>
MetricsOf(e) == IF e.metrics = <<>> THEN DefaultMetrics ELSE e.metrics
NameOf(m) == LET p == ParseMetric(m) IN PrintMetric(p.m, p.k)
NameRows(e) == [i \in DOMAIN MetricsOf(e) |-> NameOf(MetricsOf(e)[i])]
Evaluations(e) ==
  LET T == FromRecs(Recs(File(e.t)))
      P == FromRecs(Recs(File(e.p)))
      ms == MetricsOf(e)
      lib(i) == e.lib.evals[i]
      score(i, q) == RParse(lib(i).scores[CHOOSE j \in DOMAIN lib(i).scores : lib(i).scores[j][1] = q][2])
      ids == SortKeys("str", DOMAIN P)
  IN  /\ RowsOk(e.r.rows,
           << TxtRow(<<"n_queries_in_true", RInt(NQueries(T))>>), TxtRow(<<"n_queries_in_pred", RInt(NQueries(P))>>),
              TxtRow(<<"n_docs_in_true", RInt(NDocs(T))>>), TxtRow(<<"n_docs_in_pred", RInt(NDocs(P))>>),
              TxtRow(<<"n_relevant_docs", RInt(Cardinality({ x \in { <<q, d>> : q \in DOMAIN T, d \in UNION { DOMAIN T[u] : u \in DOMAIN T } } :
                                                               Has(T, x[1], x[2]) /\ T[x[1]][x[2]] # "0" }))>>) >>
           \o [i \in DOMAIN ms |-> <<Txt(NameOf(ms[i])), Num4(RParse(lib(i).mean))>>])
      /\ e.out # "" =>
           LET c == e.r.out
           IN  /\ c.t = "csv" /\ c.sep = (IF e.tab THEN "\t" ELSE ",")
               /\ Len(c.rows) = 1 + Len(ids)
               /\ c.rows[1] = <<"query_id">> \o NameRows(e)
               /\ \A i \in DOMAIN ids :
                    /\ Len(c.rows[i + 1]) = 1 + Len(ms) /\ c.rows[i + 1][1] = ids[i]
                    /\ \A j \in DOMAIN ms : /\ PredScore(c.rows[i + 1][j + 1]).ok
                                            /\ PredScore(c.rows[i + 1][j + 1]).v = score(j, ids[i])
EvaluateValid(e) ==
  LET T == File(e.t)
      P == File(e.p)
  IN  /\ JsonlOk(T, "true") /\ JsonlOk(P, "pred") /\ e.extra = ""
      /\ \A i \in DOMAIN e.metrics : ParseMetric(e.metrics[i]).ok
      /\ e.out # "" => Writable(e.out)
      /\ { r[1] : r \in Range2(Recs(P)) } \subseteq { r[1] : r \in Range2(Recs(T)) }
Evaluate(e) ==
  LET P == File(e.p)
      valid == EvaluateValid(e)
      judged == e.lib.st = "ok" /\ \A i \in DOMAIN e.lib.evals : e.lib.evals[i].st = "ok"
      plain == /\ P.t = "jsonl" => P.lines # <<>>                    \* no query, no mean
               /\ e.out # "" => Cardinality(Range2(NameRows(e))) = Len(MetricsOf(e))
  IN  /\ Succeeds(e, valid)
      /\ Demand("C18", e, valid /\ plain, judged => Evaluations(e))
      /\ Demand("C19", e, valid /\ plain, judged => Evaluations(e))
      /\ Sized(e) /\ Wrote(e) /\ Alone(e)

-----------------------------------------------------------------------------
\* elinor-compare (C20, C21)
Sys(i) == "System_" \o RInt(i)
Stat(k, v) == TxtRow(<<k, RInt(v)>>)
Basic(cs) == << Title("# Basic statistics"), TxtRow(<<"Key", "Value">>), Stat("n_systems", Len(cs)),
                Stat("n_topics", Len(cs[1].rows) - 1), Stat("n_metrics", Len(cs[1].rows[1]) - 1) >>
Aliases(paths) == << Title("# Alias"), TxtRow(<<"Alias", "Path">>) >> \o [i \in DOMAIN paths |-> TxtRow(<<Sys(i), paths[i]>>)]
MeanScore(c, m) == LET f == ScoresOf(c, m) IN Mean([i \in DOMAIN TopicSeq(c) |-> f[TopicSeq(c)[i]]])
\* a file that may repeat topics
ColMean(c, j) == Mean([i \in 1..(Len(c.rows) - 1) |-> PredScore(c.rows[i + 1][j]).v])

OneFile(cs) ==
  Basic(cs) \o << Title("# Means"), TxtRow(<<"Metric", "Score">>) >>
  \o [j \in 1..(Len(cs[1].rows[1]) - 1) |-> <<Txt(cs[1].rows[1][j + 1]), Num4(ColMean(cs[1], j + 1))>>]

\* scores of all files for metric m, a row per topic in ascending order
Joined(cs, m) == LET qs == SortKeys("str", Topics(cs[1]))
                     fcn == TLCEval([i \in DOMAIN cs |-> ScoresOf(cs[i], m)])
                 IN  TLCEval([t \in DOMAIN qs |-> [i \in DOMAIN cs |-> fcn[i][qs[t]]]])
DiffsOf(X) == TLCEval([t \in DOMAIN X |-> RNearest(RSub(X[t][1], X[t][2]))])
EffIters(s) == RMax(s, "1")

(* spread enough for rounding errors not to show *)
Wide(xs) == Len(xs) >= 2 /\ RLt("0", SSDev(xs)) /\ RLe(RMul("1e-6", RMul(RMaxAbs(xs), RMaxAbs(xs))), SSDev(xs))
WideTable(X, m) == LET E == SumsOfSquares(X, m).E
                   IN  Len(X) >= 2 /\ RLt("0", E) /\ RLe(RMul("1e-6", RMul(RMaxAbs(Flat(X)), RMaxAbs(Flat(X)))), E)

TRow(m, X) ==
  LET xs == DiffsOf(X)
      n  == Len(xs)
      v  == RDiv(SSDev(xs), RInt(n - 1))
      mu == Mean(xs)
      se == RSqrt(RRnd(RDiv(v, RInt(n))))
      t  == RRnd(RDiv(mu, se))
  IN  << Txt(m), Num4(mu), Num4(v), Num4(RRnd(RDiv(mu, RSqrt(RRnd(v))))), Num4(t), Tail4(TArg(t, n - 1), n - 1, 1), Moe4(se, n - 1) >>
\* the order of the topics is that of the first file, which is not part of the specification
BootCell(X, N) == LET xs == DiffsOf(X)
                  IN  IF ~BootFits(xs) THEN Fraction(N)
                      ELSE IF SeenZeroIf(xs, ExactMeansAnyhow(xs)) THEN Num4("1")
                      ELSE LET T == BootTailIf(xs, ExactMeansAnyhow(xs)) IN Exact(T.lo, T.ge, N)
FisherCell(X, N) == IF TukeyFits(2, X) THEN LET T == TukeyTails(2, X) IN Exact(T.lo[1][2], T.ge[1][2], N) ELSE Fraction(N)

TwoFiles(cs, e) ==
  LET ms == Common(cs)
      Xs == TLCEval([i \in DOMAIN ms |-> Joined(cs, ms[i])])
      hdr(s, cells) == << Title(s), TxtRow(cells) >>
  IN  Basic(cs) \o Aliases(e.files)
      \o hdr("# Means", <<"Metric", "System_1", "System_2">>)
      \o [i \in DOMAIN ms |-> <<Txt(ms[i]), Num4(Mean(Col(Xs[i], 1))), Num4(Mean(Col(Xs[i], 2)))>>]
      \o hdr("# Two-sided paired Student's t-test for (System_1 - System_2)", <<"Metric", "Mean", "Var", "ES", "t-stat", "p-value", "95% MOE">>)
      \o [i \in DOMAIN ms |-> TRow(ms[i], Xs[i])]
      \o hdr("# Two-sided paired Bootstrap test (n_resamples = " \o e.nres \o ")", <<"Metric", "p-value">>)
      \o [i \in DOMAIN ms |-> <<Txt(ms[i]), BootCell(Xs[i], EffIters(e.nres))>>]
      \o hdr("# Fisher's randomized test (n_iters = " \o e.niters \o ")", <<"Metric", "p-value">>)
      \o [i \in DOMAIN ms |-> <<Txt(ms[i]), FisherCell(Xs[i], EffIters(e.niters))>>]

OneMetric(m, X, k, niters) ==
  LET n  == Len(X)
      S  == SumsOfSquares(X, k)
      dE == (k - 1) * (n - 1)
      vA == RDiv(S.A, RInt(k - 1))
      vB == RDiv(S.B, RInt(n - 1))
      vE == RDiv(S.E, RInt(dE))
      fA == RRnd(RDiv(vA, vE))
      fB == RRnd(RDiv(vB, vE))
      sd == RSqrt(RRnd(vE))
      se == RSqrt(RRnd(RDiv(vE, RInt(n))))
      mu == [i \in 1..k |-> Mean(Col(X, i))]
      sys == [i \in 1..k |-> Sys(i)]
      fits == TukeyFits(k, X)
      P  == IF fits THEN TukeyTails(k, X) ELSE <<>>
  IN  << Title("# " \o m), Title("## System means"), TxtRow(<<"System", "Mean", "95% MOE">>) >>
      \o [i \in 1..k |-> <<Txt(sys[i]), Num4(mu[i]), Moe4(se, dE)>>]
      \o << Title("## Two-way ANOVA without replication"),
            TxtRow(<<"Factor", "Variation", "DF", "Variance", "F-stat", "p-value">>),
            << Txt("Between-systems"), Num4(S.A), Txt(RInt(k - 1)), Num4(vA), Num4(fA), Tail4(FArg(fA, k - 1, dE), dE, k - 1) >>,
            << Txt("Between-topics"), Num4(S.B), Txt(RInt(n - 1)), Num4(vB), Num4(fB), Tail4(FArg(fB, n - 1, dE), dE, n - 1) >>,
            << Txt("Residual"), Num4(S.E), Txt(RInt(dE)), Num4(vE), Txt(""), Txt("") >>,
            Title("## Effect sizes for Tukey HSD test"), TxtRow(<<"ES">> \o sys) >>
      \o [i \in 1..k |-> << Txt(sys[i]) >> \o [j \in 1..k |-> Num4(RRnd(RDiv(RSub(mu[i], mu[j]), sd)))]]
      \o << Title("## p-values for randomized Tukey HSD test (n_iters = " \o niters \o ")"), TxtRow(<<"p-value">> \o sys) >>
      \o [i \in 1..k |-> << Txt(sys[i]) >> \o
            [j \in 1..k |-> IF i = j THEN Num4("1") ELSE IF fits THEN Exact(P.lo[i][j], P.ge[i][j], EffIters(niters)) ELSE Fraction(EffIters(niters))]]
\* rows that OneMetric prints
RowsPerMetric(k) == 3 + k + 7 + k + 2 + k

\* the p-values of one metric agree with each other
PMatrixOk(rows, X, k, niters) ==
  LET at == Len(rows) - k
      p(i, j) == RParse(rows[at + i][j + 1])
      sums == [i \in 1..k |-> RSum(Col(X, i))]
      dif(i, j) == RAbs(RSub(sums[i], sums[j]))
  IN  \A i, j \in 1..k : /\ p(i, j) = p(j, i)
                         /\ \A g, h \in 1..k : (i # j /\ g # h /\ RLt(RAdd(dif(i, j), RMul("1e-9", RMaxAbs(Flat(X)))), dif(g, h)))
                                                  => RLe(p(g, h), p(i, j))

ManyFiles(cs, e) ==
  LET ms == Common(cs)
  IN  Basic(cs) \o Aliases(e.files) \o Flatten([i \in DOMAIN ms |-> OneMetric(ms[i], Joined(cs, ms[i]), Len(cs), e.niters)])
ManyMatrices(cs, e) ==
  LET ms == Common(cs)
      before == Len(Basic(cs)) + Len(Aliases(e.files))
      w == RowsPerMetric(Len(cs))
  IN  \A i \in DOMAIN ms :
        PMatrixOk(SubSeq(e.r.rows, before + (i - 1) * w + 1, before + i * w), Joined(cs, ms[i]), Len(cs), e.niters)

AllDecimal(s) == AllDigits(Chars(s))
CompareValid(e) ==
  LET cs == Inputs(e)
  IN  /\ e.extra = "" /\ e.mode \in {"pretty", "raw"} /\ AllDecimal(e.nres) /\ AllDecimal(e.niters) /\ Len(cs) >= 1
      /\ \A i \in DOMAIN cs : TableOk(cs[i], IF e.tab THEN "\t" ELSE ",")
      /\ Len(cs) > 1 => /\ \A i \in DOMAIN cs : Header(cs[i]) = Header(cs[1]) /\ UniqueTopics(cs[i]) /\ Topics(cs[i]) = Topics(cs[1])
                        /\ Common(cs) # <<>>
Compare(e) ==
  LET cs == Inputs(e)
      n  == Len(cs)
      valid == CompareValid(e)
      \* scores that the tests can compute with
      finite == \A c \in Range2(cs) : \A i \in 2..Len(c.rows) : \A j \in 2..Len(c.rows[i]) : ~Special(c.rows[i][j])
      distinct == \A c \in Range2(cs) : Cardinality(Range2(c.rows[1])) = Len(c.rows[1])
      plain == finite /\ distinct /\ Len(cs[1].rows) > 1
      computable2 == plain /\ \A m \in Range2(Common(cs)) : Wide(DiffsOf(Joined(cs, m)))
      computableN == plain /\ \A m \in Range2(Common(cs)) : WideTable(Joined(cs, m), n)
  IN  /\ Succeeds(e, valid)
      /\ n = 1 => Demand("C20", e, valid /\ plain, RowsOk(e.r.rows, OneFile(cs)))
      /\ n = 2 => Demand("C20", e, valid /\ computable2, RowsOk(e.r.rows, TwoFiles(cs, e)))
      /\ n > 2 => Demand("C21", e, valid /\ computableN, RowsOk(e.r.rows, ManyFiles(cs, e)) /\ ManyMatrices(cs, e))
      /\ Sized(e) /\ fs' = fs /\ Alone(e)

-----------------------------------------------------------------------------
PutFile(p, c) == fs' = (p :> c) @@ fs /\ UNCHANGED <<full, seen>>
=============================================================================
