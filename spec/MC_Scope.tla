----------------------------- MODULE MC_Scope -----------------------------
(***************************************************************************)
(* All pairs of stores over few queries (C07): each query has one of a few *)
(* fixed contents on either side, or none.                                 *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS Queries, IdTypes

VARIABLES kt, T, P, told
mvars == <<bld, sto, evs, mem, kt, T, P, told>>

Judgment == << << <<"1", "1">>, <<"2", "0">> >>, << <<"1", "0">> >>, << <<"2", "2">>, <<"3", "1">> >> >>
Ranking2 == << << <<"1", "1">>, <<"2", "0">> >>, << <<"2", "1">>, <<"1", "0">>, <<"3", "-1">> >> >>
Qs == FirstIds(kt, Queries)
MInit == LInit /\ kt \in IdTypes /\ T = <<>> /\ P = <<>> /\ told = FALSE
Judge == \E q \in Qs \ DOMAIN T : \E c \in 1..3 : T' = (q :> c) @@ T /\ UNCHANGED <<lvars, kt, P, told>>
Predict == \E q \in Qs \ DOMAIN P : \E c \in 1..2 : P' = (q :> c) @@ P /\ UNCHANGED <<lvars, kt, T, told>>

RecsOf(f, Contents) == LET qs == SetToSeq(DOMAIN f)
                       IN  FlattenSeq([i \in DOMAIN qs |-> LET c == Contents[f[qs[i]]] IN [j \in DOMAIN c |-> <<qs[i], IF kt = "char" THEN c[j][1] ELSE c[j][1], c[j][2]>>]])
E(m, k) == [op |-> "eval", t |-> "t", p |-> "p", m |-> m, k |-> k, as |-> m \o k]
Script == << [op |-> "from", kind |-> "true", recs |-> RecsOf(T, Judgment), as |-> "t"],
             [op |-> "from", kind |-> "pred", recs |-> RecsOf(P, Ranking2), as |-> "p"],
             E("hits", "0"), E("precision", "2"), E("ndcg", "1"), E("bpref", "7"), E("ap", "0"), E("r_precision", "18446744073709551615") >>
Tell == ~told /\ told' = TRUE /\ Emit(kt, Script) /\ UNCHANGED <<lvars, kt, T, P>>
MNext == ~told /\ (Judge \/ Predict \/ Tell)
\* a missing entry is a matter of the query sets alone
JT == FromRecs(NumRecs(RecsOf(T, Judgment)))
JP == FromRecs(NumRecs(RecsOf(P, Ranking2)))
Domains == DOMAIN JT = DOMAIN T /\ DOMAIN JP = DOMAIN P
=============================================================================
