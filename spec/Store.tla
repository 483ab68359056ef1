------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* Relevance stores: what they hold and how they rank.                     *)
(*                                                                         *)
(* A store is a function  query -> (document -> score).  Ids are strings;  *)
(* kt, the id type they stand for, fixes their order: "str" and "char"     *)
(* order by code point, "rev" (a user's own type, all of whose values are  *)
(* displayed alike) against it, every other type numerically.              *)
(* Scores are rationals (see Num) or infinite.                             *)
(***************************************************************************)
EXTENDS Num, FiniteSets, SequencesExt, TLC

KCmp(kt, a, b)  == CASE kt \in {"str", "char"} -> StrCmp(a, b)
                     [] kt = "rev" -> StrCmp(b, a)
                     [] OTHER -> RCmp(a, b)
KLess(kt, a, b) == KCmp(kt, a, b) < 0

EmptyStore == <<>>
Has(S, q, d)    == q \in DOMAIN S /\ d \in DOMAIN S[q]
Docs(S, q)      == IF q \in DOMAIN S THEN S[q] ELSE <<>>
Put(S, q, d, x) == (q :> ((d :> x) @@ Docs(S, q))) @@ S

\* The pairs of a sequence of records <<query, document, score>>.
PairsOf(recs)  == { <<recs[i][1], recs[i][2]>> : i \in DOMAIN recs }
HasDup(recs)   == Cardinality(PairsOf(recs)) # Len(recs)
\* for records without duplicates the same as Put-ting them one by one
FromRecs(recs) == Fun2Of(recs)

NQueries(S) == Cardinality(DOMAIN S)
NDocs(S)    == FoldLeft(LAMBDA n, q : n + Cardinality(DOMAIN S[q]), 0, SetToSeq(DOMAIN S))

\* Scores may be infinite: "-inf" is below and "inf" above every number.
SRank(a)        == CASE a = "inf" -> 1 [] a = "-inf" -> -1 [] OTHER -> 0
SCmp(a, b)      == LET x == SRank(a)  y == SRank(b)
                   IN  IF x = 0 /\ y = 0 THEN RCmp(a, b) ELSE x - y
\* Documents ranked by descending score, ties by ascending id: a strict total order.
Before(kt, M, a, b) == LET c == SCmp(M[a], M[b]) IN c > 0 \/ (c = 0 /\ KLess(kt, a, b))
Ranking(kt, M)      == SortSeq(SetToSeq(DOMAIN M), LAMBDA a, b : Before(kt, M, a, b))
IsPermOf(D, R)      == Len(R) = Cardinality(D) /\ { R[i] : i \in DOMAIN R } = D
IsRanking(kt, M, R) == IsPermOf(DOMAIN M, R) /\ \A i \in 1..(Len(R) - 1) : Before(kt, M, R[i], R[i + 1])

Ascending(kt, ks) == \A i \in 1..(Len(ks) - 1) : KLess(kt, ks[i], ks[i + 1])
\* SortSeq(SetToSeq(D), LAMBDA a, b : KLess(kt, a, b)), which takes TLC too long
SortKeys(kt, D)   == IF kt = "rev" THEN Reverse(SortStr(SetToSeq(D), FALSE))
                     ELSE SortStr(SetToSeq(D), kt \notin {"str", "char"})
RanksOf(kt, S)    == [q \in DOMAIN S |-> Ranking(kt, S[q])]

\* Two score maps that order the same documents alike (a strictly increasing rescaling);
\* R ranks the documents of A.
SameOrder(A, B, R) == /\ DOMAIN A = DOMAIN B
                      /\ \A i \in 1..(Len(R) - 1) : SCmp(A[R[i]], A[R[i + 1]]) = SCmp(B[R[i]], B[R[i + 1]])
=============================================================================
