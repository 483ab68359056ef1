------------------------------ MODULE MC_Eval ------------------------------
(***************************************************************************)
(* elinor-evaluate (C18) on all small pairs of files: Trues judgments and  *)
(* Preds predictions over two queries and two documents, in every order of *)
(* the lines.                                                              *)
(***************************************************************************)
EXTENDS Cli, Json, CSV, IOUtils

CONSTANTS Trues, Preds, TrueScores, PredScores

VARIABLES tl, pl, told
mvars == <<fs, full, seen, tl, pl, told>>

Pairs == {"q10", "q9"} \X {"d", "D"}
Pair(r) == <<r.f[1][3], r.f[2][3]>>
Rec(x, ty, v) == [ok |-> TRUE, f |-> << <<"query_id", "str", x[1]>>, <<"doc_id", "str", x[2]>>, <<"score", ty, v>> >>]
Used(s) == { Pair(s[i]) : i \in DOMAIN s }
MInit == fs = <<>> /\ full = <<>> /\ seen = <<>> /\ tl = <<>> /\ pl = <<>> /\ told = FALSE
AddTrue == /\ Len(tl) < Trues /\ pl = <<>>
           /\ \E x \in Pairs \ Used(tl) : \E v \in TrueScores : tl' = Append(tl, Rec(x, "int", v))
           /\ UNCHANGED <<fs, full, seen, pl, told>>
AddPred == /\ Len(pl) < Preds
           /\ \E x \in Pairs \ Used(pl) : \E v \in PredScores : pl' = Append(pl, Rec(x, "real", v))
           /\ UNCHANGED <<fs, full, seen, tl, told>>
JsonL(x) == [t |-> "jsonl", lines |-> x]
Valid == /\ JsonlOk(JsonL(tl), "true") /\ JsonlOk(JsonL(pl), "pred")
         /\ { r[1] : r \in Range2(Recs(JsonL(pl))) } \subseteq { r[1] : r \in Range2(Recs(JsonL(tl))) }
Run == [op |-> "evaluate", t |-> "t.jsonl", p |-> "p.jsonl", metrics |-> <<"ap", "precision@1", "ndcg">>, out |-> "o.csv", tab |-> FALSE, extra |-> "",
        fault |-> [kind |-> "none"], expect |-> IF Valid THEN "ok" ELSE "fail"]
Tell == /\ told' = TRUE
        /\ CSVWrite("%1$s", <<ToJson([files |-> << [path |-> "t.jsonl", c |-> JsonL(tl)], [path |-> "p.jsonl", c |-> JsonL(pl)] >>, run |-> Run])>>, IOEnv.OUT)
        /\ UNCHANGED <<fs, full, seen, tl, pl>>
MNext == ~told /\ (AddTrue \/ AddPred \/ (pl # <<>> /\ Tell))

-----------------------------------------------------------------------------
Backwards(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
LineOrder == \A s \in {tl, pl} : FromRecs(Recs(JsonL(s))) = FromRecs(Recs(JsonL(Backwards(s))))
Sizes == LET T == FromRecs(Recs(JsonL(tl)))
         IN  NDocs(T) = Len(tl) /\ NQueries(T) = Cardinality({ Pair(tl[i])[1] : i \in DOMAIN tl })
=============================================================================
