------------------------------ MODULE MC_Rank ------------------------------
(***************************************************************************)
(* All assignments of scores to Docs documents (C02), inserted in several  *)
(* orders, and evaluated.                                                  *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS Documents, IdTypes, AllOrders

VARIABLES kt, kind, sc, told     \* sc: the scores given so far, in the order of the ids
mvars == <<bld, sto, evs, mem, kt, kind, sc, told>>

Values == IF kind = "true" THEN {"0", "1", "4294967295"} ELSE {"-0", "0", "1:-1", "-1:-1074", "inf", "-inf"}
MInit == LInit /\ kt \in IdTypes /\ kind \in {"true", "pred"} /\ sc = <<>> /\ told = FALSE
Assign == Len(sc) < Documents /\ \E x \in Values : sc' = Append(sc, x) /\ UNCHANGED <<lvars, kt, kind, told>>

Orders == IF AllOrders THEN SetToSeq(PermutationsOf(DOMAIN sc))
          ELSE LET n == Len(sc)
               IN  << [i \in 1..n |-> i], [i \in 1..n |-> n + 1 - i], [i \in 1..n |-> (i % n) + 1], [i \in 1..n |-> IF i = 1 THEN n ELSE IF i = n THEN 1 ELSE i] >>
Recs(o) == [i \in DOMAIN o |-> <<"1", Ids(kt)[o[i]], sc[o[i]]>>]
Name(i) == "s" \o RInt(i)
Judgments == [i \in 1..Documents |-> <<"1", Ids(kt)[i], RInt(i - 1)>>]
Evals(n) == FlattenSeq([i \in 1..n |-> [j \in 1..3 |->
               [op |-> "eval", t |-> "t", p |-> Name(i), m |-> <<"ap", "ndcg", "bpref">>[j], k |-> <<"0", "2", "0">>[j], as |-> Name(i) \o RInt(j)]]])
Script == LET o == Orders
          IN  << [op |-> "from", kind |-> "true", recs |-> Judgments, as |-> "t"] >>
              \o [i \in DOMAIN o |-> [op |-> "from", kind |-> kind, recs |-> Recs(o[i]), as |-> Name(i)]]
              \o (IF kind = "pred" THEN Evals(Len(o)) ELSE <<>>)
Tell == ~told /\ Len(sc) = Documents /\ told' = TRUE /\ Emit(kt, Script) /\ UNCHANGED <<lvars, kt, kind, sc>>
MNext == Assign \/ Tell

-----------------------------------------------------------------------------
M == [d \in FirstIds(kt, Len(sc)) |-> RParse(sc[CHOOSE i \in DOMAIN sc : Ids(kt)[i] = d])]
\* there is exactly one ranking
OneRanking == { p \in PermutationsOf(DOMAIN M) : IsRanking(kt, M, p) } = { Ranking(kt, M) }
StrictOrder == \A a, b, c \in DOMAIN M : /\ ~Before(kt, M, a, a)
                                         /\ (Before(kt, M, a, b) /\ Before(kt, M, b, c)) => Before(kt, M, a, c)
                                         /\ a # b => (Before(kt, M, a, b) <=> ~Before(kt, M, b, a))
\* rescaling keeps it
Rescaled == LET N == [d \in DOMAIN M |-> IF IsFin(M[d]) THEN RSub(RMul("3", M[d]), "2") ELSE M[d]] IN SameOrder(M, N, Ranking(kt, M)) /\ Ranking(kt, M) = Ranking(kt, N)
=============================================================================
