------------------------------ MODULE MC_Runs ------------------------------
(***************************************************************************)
(* All sequences of Length runs of the tools over a few files (C24), each  *)
(* run using what earlier ones wrote or what was there before.             *)
(*                                                                         *)
(* Here a file is what it was made from: the name of a given file, or the  *)
(* run that made it with what it read.  So a run that remembered anything, *)
(* or that left remains of older contents, would give another file.        *)
(***************************************************************************)
EXTENDS Cli, Json, CSV, IOUtils

CONSTANT Length

VARIABLES world, \* path -> what the file was made from
          made,  \* the runs so far, as the tools are told
          how,   \* and what they came to: <<task, result>>
          old    \* the world at first
mvars == <<fs, full, seen, world, made, how, old>>

Text(x)  == [t |-> "lines", lines |-> x]
R3(q, d, ty, x) == [ok |-> TRUE, f |-> << <<"query_id", "str", q>>, <<"doc_id", "str", d>>, <<"score", ty, x>> >>]
JsonL(x) == [t |-> "jsonl", lines |-> x]
Given == "t.trec"  :> Text(<< "q1 0 d1 1", "q1 0 d2 0", "q2 0 d1 2", "q3 0 d3 1" >>)
      @@ "p.trec"  :> Text(<< "q1 Q0 d2 a 0.5 r", "q2 Q0 d1 a 0.25 r", "q2 Q0 d3 b 0.125 r", "q1 Q0 d1 b 0.5 r" >>)
      \* from earlier days, longer
      @@ "t.jsonl" :> JsonL([i \in 1..9 |-> R3(<<"q1", "q2", "q4">>[(i % 3) + 1], "d" \o RInt(i), "int", RInt(i % 2))])
      @@ "p.jsonl" :> JsonL([i \in 1..8 |-> R3(<<"q1", "q2", "q4">>[(i % 3) + 1], "d" \o RInt(i), "real", RInt(i) \o ".5")])
      @@ "a.csv"   :> [t |-> "csv", sep |-> ",", rows |-> << <<"query_id", "rr", "ap">>, <<"q7", "0.5", "1.0">>, <<"q8", "0.25", "0.5">>, <<"q9", "0.0", "0.5">>, <<"q10", "1.0", "0.5">> >>]
Trec == {"t.trec", "p.trec"}

Conv(i, o, k)    == [op |-> "convert", in |-> i, out |-> o, kind |-> k, extra |-> ""]
Eval(t, p, ms, o) == [op |-> "evaluate", t |-> t, p |-> p, metrics |-> ms, out |-> o, tab |-> FALSE, extra |-> ""]
Comp(fl) == [op |-> "compare", files |-> fl, tab |-> FALSE, mode |-> "raw", nres |-> "20", niters |-> "20", extra |-> ""]
Runs == { Conv("t.trec", "t.jsonl", "true"), Conv("p.trec", "p.jsonl", "pred"),
          \* judgments are predictions, too; then there may be queries without judgments
          Conv("t.trec", "p.jsonl", "true"),
          \* no judgments
          Conv("p.trec", "t.jsonl", "true"),
          Eval("t.jsonl", "p.jsonl", <<"ap", "rr">>, "a.csv"), Eval("t.jsonl", "p.jsonl", <<"ndcg@2">>, "a.csv"), Eval("t.jsonl", "p.jsonl", <<"ap", "rr">>, ""),
          Comp(<<"a.csv">>), Comp(<<"a.csv", "a.csv">>) }

Has3(p) == p \in DOMAIN world
What(p) == IF Has3(p) THEN world[p] ELSE <<"none">>
Out(e)  == IF e.op = "compare" THEN "" ELSE e.out
Plan(e) == CASE e.op = "convert"  -> <<e.op, e.kind, What(e.in)>>
             [] e.op = "evaluate" -> <<e.op, e.metrics, What(e.t), What(e.p)>>
             [] e.op = "compare"  -> <<e.op, Len(e.files), What("a.csv")>>
\* a file of judgments: its queries; a file of predictions: the same; anything else: none
QueriesOf(w) == CASE w = <<"t.jsonl">> -> {"q1", "q2", "q4"} [] w = <<"p.jsonl">> -> {"q1", "q2", "q4"}
                  [] w = <<"convert", "true", <<"t.trec">>>> -> {"q1", "q2", "q3"} [] w = <<"convert", "pred", <<"p.trec">>>> -> {"q1", "q2"}
                  [] OTHER -> {}
Judges(w) == w = <<"t.jsonl">> \/ w = <<"convert", "true", <<"t.trec">>>>
\* (a failed conversion may leave anything: "broken")
Broken(w) == w[1] = "broken"
Fate(e) == CASE e.op = "convert" -> IF e.kind = (IF e.in = "t.trec" THEN "true" ELSE "pred") THEN "ok" ELSE "fail"
             [] e.op = "evaluate" -> IF Broken(What(e.t)) \/ Broken(What(e.p)) THEN "any"
                                     ELSE IF /\ Judges(What(e.t)) /\ QueriesOf(What(e.p)) # {}
                                             /\ QueriesOf(What(e.p)) \subseteq QueriesOf(What(e.t)) THEN "ok" ELSE "fail"
             [] e.op = "compare" -> IF Broken(What("a.csv")) THEN "any" ELSE IF Has3("a.csv") THEN "ok" ELSE "fail"

MInit == /\ fs = <<>> /\ full = <<>> /\ seen = <<>> /\ made = <<>> /\ how = <<>>
         /\ old \in { Trec, DOMAIN Given, DOMAIN Given \ {"a.csv"} }
         /\ world = [p \in old |-> <<p>>]
Run == /\ Len(made) < Length
       /\ \E e \in Runs :
            LET f == Fate(e)
                x == IF f = "ok" THEN Plan(e) ELSE <<"broken">>
                keeps == Out(e) = "" \/ (e.op = "evaluate" /\ f = "fail")
            IN  /\ made' = Append(made, e @@ [expect |-> IF f = "any" THEN "" ELSE f])
                /\ how'  = Append(how, <<Plan(e), f>>)
                /\ world' = IF keeps THEN world ELSE (Out(e) :> x) @@ world
       /\ UNCHANGED <<fs, full, seen, old>>
Script == [files |-> [i \in 1..Cardinality(old) |-> [path |-> SetToSeq(old)[i], c |-> Given[SetToSeq(old)[i]]]], runs |-> made]
Tell == /\ Len(made) = Length /\ CSVWrite("%1$s", <<ToJson(Script)>>, IOEnv.OUT)
        /\ made' = Append(made, <<>>) /\ UNCHANGED <<fs, full, seen, world, how, old>>
MNext == Run \/ Tell

-----------------------------------------------------------------------------
\* what a run comes to depends on what it is told and reads
Same == \A i, j \in DOMAIN how : how[i][1] = how[j][1] => how[i][2] = how[j][2]
\* a run changes one file at most, its output
Frame == [][\A p \in DOMAIN world : world'[p] # world[p] => p = Out(made'[Len(made')])]_<<world>>
\* given files stay
Inputs3 == \A p \in Trec : world[p] = <<p>>
=============================================================================
