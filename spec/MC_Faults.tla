------------------------------ MODULE MC_Faults ------------------------------
(***************************************************************************)
(* Everything that can go wrong around a run of a tool, enumerated (C23).  *)
(*                                                                         *)
(* From a small world of valid files, up to Depth corruptions are applied, *)
(* each to any file at any place; then every run that reads a corrupted    *)
(* file is tried, with every destination.  In the intact world all runs    *)
(* are tried, with every broken option and with every disturbance of the   *)
(* output.  Each state reached this way is written as a script for the     *)
(* real tools, together with what Cli says of it: valid runs must succeed  *)
(* and invalid ones must fail.                                             *)
(***************************************************************************)
EXTENDS Cli, Json, CSV, IOUtils

CONSTANTS Depth,     \* corruptions per world
          Wide3      \* TRUE: corrupt every place; FALSE: first and last place only

VARIABLES hurt,      \* corrupted paths, in order of corruption
          run        \* the run tried, <<>> before
mvars == <<fs, full, seen, hurt, run>>

-----------------------------------------------------------------------------
TrueLines == << "q1 0 d1 1", "q1 0 d2 0", "q2 0 d1 2" >>
PredLines == << "q1 Q0 d2 1 0.5 r", "q2 Q0 d1 1 0.25 r", "q2 Q0 d3 2 0.125 r" >>
R3(q, d, ty, x) == [ok |-> TRUE, f |-> << <<"query_id", "str", q>>, <<"doc_id", "str", d>>, <<"score", ty, x>> >>]
TrueRecs == << R3("q1", "d1", "int", "1"), R3("q1", "d2", "int", "0"), R3("q2", "d1", "int", "2") >>
PredRecs == << R3("q1", "d2", "real", "0.5"), R3("q2", "d1", "real", "0.25"), R3("q2", "d3", "int", "1") >>
TableA == << <<"query_id", "ap", "rr">>, <<"q1", "0.5", "1.0">>, <<"q2", "0.25", "0.125">>, <<"q3", "0.0", "0.5">> >>
TableB == << <<"query_id", "ap", "rr">>, <<"q2", "0.125", "0.5">>, <<"q3", "0.75", "0.25">>, <<"q1", "1.0", "0.0">> >>
TableC == << <<"query_id", "rr", "ap">>, <<"q1", "1.0", "0.375">>, <<"q3", "0.75", "0.5">>, <<"q2", "0.0", "1.0">> >>
Text(x)  == [t |-> "lines", lines |-> x]
JsonL(x) == [t |-> "jsonl", lines |-> x]
Csv(x)   == [t |-> "csv", sep |-> ",", rows |-> x]
World == "t.trec" :> Text(TrueLines) @@ "p.trec" :> Text(PredLines)
      @@ "t.jsonl" :> JsonL(TrueRecs) @@ "p.jsonl" :> JsonL(PredRecs)
      @@ "a.csv" :> Csv(TableA) @@ "b.csv" :> Csv(TableB) @@ "c.csv" :> Csv(TableC)

-----------------------------------------------------------------------------
\* Corruptions
Places(n) == IF Wide3 \/ n <= 2 THEN 1..n ELSE {1, n}
SetAt(s, i, x) == [s EXCEPT ![i] = x]
PutAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
CutAt(s, i)    == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Unreadables == { [t |-> "none"], [t |-> "dir"], [t |-> "binary"] }
\* a sequence damaged at any place: an element replaced, inserted, removed or repeated elsewhere
Damaged(s, bad(_)) == UNION { { SetAt(s, i, x) : x \in bad(s[i]) } \cup { PutAt(s, i, x) : x \in bad(s[i]) }
                              \cup { CutAt(s, i), Append(s, s[i]), <<s[i]>> \o s } : i \in Places(Len(s)) }

BadTrue(l) == { "", " ", "q1", "q1 0 d1", "q9 0 d1 x", "q9 0 d1 1.5", "q9 0 d1 2147483648", "q9 0 d1 ", "q1 0 d1 5", "q9 0 d1 1 extra" }
BadPred(l) == { "", "q1 Q0 d2 1", "q9 Q0 d9 1 x r", "q9 Q0 d9 1 0,5 r", "q9 Q0 d9 1 1.2.3 r", "q1 Q0 d2 7 9.5 r", "q8 Q0 d9 1 0.5",
                "q8 Q0 d9 1 inf r", "q8 Q0 d9 1 -Infinity r", "q8 Q0 d9 1 1e400 r", "q8 Q0 d9 1 NaN r" }

Garbage == [ok |-> FALSE, f |-> <<>>]
BadRec(l) == LET f == l.f
                 with(i, ty, x) == [ok |-> TRUE, f |-> [f EXCEPT ![i] = <<f[i][1], ty, x>>]]
             IN  { Garbage, with(3, "str", "1"), with(3, "null", ""), with(3, "bool", ""), with(3, "list", ""), with(3, "int", "-1"),
                   with(3, "real", "1.5"), with(3, "int", "4294967296"), with(1, "int", "1"), with(2, "null", ""),
                   with(1, "str", "q9"), with(2, "str", "d9") }
                 \cup { [ok |-> TRUE, f |-> CutAt(f, i)] : i \in 1..3 }

Cells(r) == { r[j] : j \in 2..Len(r) }
BadRow(r) == { SetAt(r, j, x) : j \in Places(Len(r)) \ {1}, x \in {"x", "", "0,5", " 0.5", "--1", "1e", "0.5"} }
             \cup { Append(r, "0.5"), CutAt(r, Len(r)), SetAt(r, 1, "q9"), SetAt(r, 1, "q1"), SetAt(r, 1, "q01") }
WithRows(rows, h) == <<h>> \o Tail(rows)
BadCsv(rows) == { <<rows[1]>> \o x : x \in Damaged(Tail(rows), BadRow) }
                \cup { <<>>, <<rows[1]>>, Tail(rows) }
                \cup { WithRows(rows, h) : h \in { <<"topic", "ap", "rr">>, <<"query_id", "rr", "ap">>, <<"query_id", "x", "rr">>,
                                                    <<"query_id", "x", "y">>, <<"ap", "query_id", "rr">> } }
Corrupted(c) ==
  Unreadables \cup
  CASE c.t = "lines" -> { Text(x) : x \in Damaged(c.lines, LAMBDA l : IF c.lines[1] \in Range2(TrueLines) THEN BadTrue(l) ELSE BadPred(l)) } \cup { Text(<<>>) }
    [] c.t = "jsonl" -> { JsonL(x) : x \in Damaged(c.lines, BadRec) } \cup { JsonL(<<>>) }
    [] c.t = "csv"   -> { Csv(x) : x \in BadCsv(c.rows) }

-----------------------------------------------------------------------------
\* Runs
Calm == [kind |-> "none"]
Conv(i, o, k, x, f) == [op |-> "convert", in |-> i, out |-> o, kind |-> k, extra |-> x, fault |-> f]
Eval(t, p, ms, o, x, f) == [op |-> "evaluate", t |-> t, p |-> p, metrics |-> ms, out |-> o, tab |-> FALSE, extra |-> x, fault |-> f]
Comp(fl, mo, nr, ni, x, f) == [op |-> "compare", files |-> fl, tab |-> FALSE, mode |-> mo, nres |-> nr, niters |-> ni, extra |-> x, fault |-> f]

\* the plain runs, by the files that they read
Converts(f)  == { Conv(i, "o.jsonl", k, "", f) : i \in {"t.trec", "p.trec"}, k \in {"true", "pred"} }
Evaluates(f) == { Eval("t.jsonl", "p.jsonl", ms, o, "", f) : ms \in { <<>>, <<"ap@2", "bpref">> }, o \in {"", "o.csv"} }
Compares(f)  == { Comp(fl, mo, "20", "20", "", f) : mo \in {"raw", "pretty"},
                  fl \in { <<"a.csv">>, <<"b.csv">>, <<"c.csv">>, <<"a.csv", "a.csv">>, <<"a.csv", "b.csv">>, <<"b.csv", "a.csv">>, <<"a.csv", "b.csv", "c.csv">>, <<"c.csv", "a.csv", "b.csv">> } }
PlainRuns(f) == Converts(f) \cup Evaluates(f) \cup Compares(f)

\* in the intact world: broken options
OptionRuns ==
  { Conv("t.trec", "o.jsonl", k, "", Calm) : k \in {"", "TRUE", "gold", "true "} }
  \cup { Conv("t.trec", "", "true", "", Calm), Conv("", "o.jsonl", "true", "", Calm), Conv("t.trec", "o.jsonl", "true", "--bogus", Calm),
         Conv("t.trec", "o.jsonl", "true", "more", Calm), Conv("t.trec", "t.trec", "true", "", Calm) }
  \cup { Eval("t.jsonl", "p.jsonl", ms, "o.csv", "", Calm) : ms \in { <<"foo">>, <<"ap@">>, <<"ap@x">>, <<"ap", "foo">>, <<"AP">>, <<"ap@-1">>, <<"ap @1">>,
           <<"bpref@">>, <<"map">>, <<"">>, <<"ndcg@18446744073709551616">>, <<"ap@1", "ap@2">>, <<"ndcg_burges@3", "rr", "f1">> } }
  \cup { Eval("", "p.jsonl", <<>>, "", "", Calm), Eval("t.jsonl", "", <<>>, "", "", Calm), Eval("t.jsonl", "p.jsonl", <<>>, "", "--bogus", Calm),
         Eval("p.jsonl", "t.jsonl", <<>>, "", "", Calm), Eval("t.jsonl", "t.jsonl", <<>>, "", "", Calm) }
  \cup { Comp(<<"a.csv", "b.csv">>, mo, "20", "20", "", Calm) : mo \in {"x", "Raw", "tsv"} }
  \cup { Comp(<<"a.csv", "b.csv">>, "raw", nr, "20", "", Calm) : nr \in {"x", "-1", "", "1.5", "1e3", "0"} }
  \cup { Comp(<<"a.csv", "b.csv">>, "raw", "20", ni, "", Calm) : ni \in {"x", "-1", "", "1.5", "0"} }
  \cup { Comp(<<>>, "raw", "20", "20", "", Calm), Comp(<<"a.csv", "a.csv">>, "raw", "20", "20", "--bogus", Calm), Comp(<<"a.csv", "zz">>, "raw", "20", "20", "", Calm),
         Comp(<<"zz">>, "pretty", "20", "20", "", Calm) }
\* and destinations that take nothing
DestinationRuns ==
  { Conv("t.trec", o, "true", "", Calm) : o \in {"adir", "/dev/full", "no/such"} }
  \cup { Conv("p.trec", o, "pred", "", Calm) : o \in {"adir", "/dev/full", "no/such"} }
  \cup { Eval("t.jsonl", "p.jsonl", ms, o, "", Calm) : ms \in { <<>>, <<"ap">> }, o \in {"adir", "/dev/full", "no/such"} }
Destinations == "adir" :> [t |-> "dir"] @@ "/dev/full" :> [t |-> "device"] @@ "no/such" :> [t |-> "noparent"]
\* and disturbed outputs; "sweep": every size below the complete one
Faults == { [kind |-> "full", on |-> "stdout"], [kind |-> "pipe", on |-> "stdout"], [kind |-> "sweep", on |-> "stdout"] }
DisturbedRuns == UNION { PlainRuns(f) : f \in Faults }
                 \cup { e \in PlainRuns([kind |-> "sweep", on |-> "out"]) : e.op # "compare" /\ e.out # "" }

-----------------------------------------------------------------------------
Valid(e) == CASE e.op = "convert" -> ConvertValid(e) [] e.op = "evaluate" -> EvaluateValid(e) [] e.op = "compare" -> CompareValid(e)

MInit == fs = World @@ Destinations /\ full = <<>> /\ seen = <<>> /\ hurt = <<>> /\ run = <<>>
Corrupt == /\ run = <<>> /\ Len(hurt) < Depth
           /\ \E p \in DOMAIN World \ Range2(hurt) : \E c \in Corrupted(World[p]) :
                fs' = [fs EXCEPT ![p] = c] /\ hurt' = Append(hurt, p)
           /\ UNCHANGED <<full, seen, run>>
\* the order of corruptions does not matter
Ordered == \A i \in 1..(Len(hurt) - 1) : StrCmp(hurt[i], hurt[i + 1]) < 0

Paths(e) == SetToSeq((Reads(e) \cup (IF e.op = "compare" THEN {} ELSE {e.out})) \cap DOMAIN fs)
Script(e) == [files |-> [i \in DOMAIN Paths(e) |-> [path |-> Paths(e)[i], c |-> fs[Paths(e)[i]]]],
              run |-> e @@ [expect |-> IF Valid(e) THEN "ok" ELSE "fail"]]
Try == /\ run = <<>>
       /\ \E e \in IF hurt = <<>> THEN PlainRuns(Calm) \cup OptionRuns \cup DestinationRuns \cup DisturbedRuns
                   ELSE { e \in PlainRuns(Calm) : Range2(hurt) \subseteq Reads(e) } :
            run' = <<e, Valid(e)>> /\ CSVWrite("%1$s", <<ToJson(Script(e))>>, IOEnv.OUT)
       /\ UNCHANGED <<fs, full, seen, hurt>>
MNext == Corrupt \/ Try

-----------------------------------------------------------------------------
\* What this says about the specification itself
Usable(c) == CASE c.t = "lines" -> TrecOk(c, "true") \/ TrecOk(c, "pred")
               [] c.t = "jsonl" -> JsonlOk(c, "true") \/ JsonlOk(c, "pred")
               [] c.t = "csv"   -> TableOk(c, ",")
               [] OTHER -> FALSE
\* a valid run reads usable files only, whatever it was told
ValidReadsUsable == (run # <<>> /\ run[2]) => \A p \in Reads(run[1]) : Usable(File(p))
\* a run without an unusable file, with an accepted destination and known options is valid unless its files do not fit together
IntactIsValid == (run # <<>> /\ hurt = <<>> /\ run[1] \in PlainRuns(Calm)
                  /\ (run[1].op = "convert" => run[1].in = (IF run[1].kind = "true" THEN "t.trec" ELSE "p.trec"))) => run[2]
\* score tables do not depend on the order of the files
SymmetricTables == (run # <<>> /\ run[1].op = "compare" /\ run[2]) =>
                     LET e == run[1] IN \A i \in DOMAIN e.files : Topics(File(e.files[i])) = Topics(File(e.files[1]))
=============================================================================
