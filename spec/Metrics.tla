------------------------------ MODULE Metrics ------------------------------
(***************************************************************************)
(* The metrics, over exact rationals.  J is the judgment map of the query  *)
(* (document -> score), R the ranked list of retrieved documents, k the    *)
(* cutoff as a rational string ("0" = no cutoff; it may exceed 32 bits).   *)
(***************************************************************************)
EXTENDS Store

MetricNames == {"hits", "success", "precision", "recall", "f1", "r_precision", "ap", "rr",
                "bpref", "dcg", "ndcg", "dcg_burges", "ndcg_burges"}
NoCutoff    == {"r_precision", "bpref"}
SetMetrics  == {"hits", "success", "precision", "recall", "f1", "r_precision"}
RankMetrics == {"ap", "rr", "bpref"}
DcgMetrics  == {"dcg", "ndcg", "dcg_burges", "ndcg_burges"}
PropOf(m)   == IF m \in SetMetrics THEN "C03" ELSE IF m \in RankMetrics THEN "C04" ELSE "C05"

Judged(J, d) == d \in DOMAIN J
Rel(J, d)    == Judged(J, d) /\ J[d] # "0"          \* judged at level 1 or more
NRel(J)      == Cardinality({ d \in DOMAIN J : J[d] # "0" })
NNon(J)      == Cardinality(DOMAIN J) - NRel(J)

Cut(k, n)      == IF k = "0" \/ RLe(RInt(n), k) THEN n ELSE RToInt(k)
HitsAt(J, R, c) == Cardinality({ i \in 1..c : Rel(J, R[i]) })
Ratio(a, b)    == RDiv(RInt(a), RInt(b))

-----------------------------------------------------------------------------
\* Set-based metrics (C03)
Hits(J, R, k)      == RInt(HitsAt(J, R, Cut(k, Len(R))))
Success(J, R, k)   == IF HitsAt(J, R, Cut(k, Len(R))) > 0 THEN "1" ELSE "0"
Precision(J, R, k) == IF k = "0" /\ Len(R) = 0 THEN "0"
                      ELSE RDiv(Hits(J, R, k), IF k = "0" THEN RInt(Len(R)) ELSE k)
Recall(J, R, k)    == IF NRel(J) = 0 THEN "0" ELSE RDiv(Hits(J, R, k), RInt(NRel(J)))
F1(J, R, k)        == LET p == Precision(J, R, k)
                          r == Recall(J, R, k)
                          s == RAdd(p, r)
                      IN  IF s = "0" THEN "0" ELSE RDiv(RMul("2", RMul(p, r)), s)
RPrecision(J, R)   == IF NRel(J) = 0 THEN "0" ELSE Precision(J, R, RInt(NRel(J)))

-----------------------------------------------------------------------------
\* Rank-based metrics (C04)
AP(J, R, k) ==
  IF NRel(J) = 0 THEN "0"
  ELSE LET f == FoldLeft(LAMBDA a, i : IF Rel(J, R[i])
                                       THEN <<a[1] + 1, RAdd(a[2], Ratio(a[1] + 1, i))>>
                                       ELSE a,
                         <<0, "0">>, [i \in 1..Cut(k, Len(R)) |-> i])
       IN  RDiv(f[2], RInt(NRel(J)))

RR(J, R, k) ==
  LET hit == { i \in 1..Cut(k, Len(R)) : Rel(J, R[i]) }
  IN  IF hit = {} THEN "0" ELSE Ratio(1, CHOOSE i \in hit : \A j \in hit : i <= j)

\* 1 - min(R, N_r) / min(R, N), and 1 when no judged non-relevant document is above.
Bpref(J, R) ==
  LET nr == NRel(J)
      nn == NNon(J)
      lo(a, b) == IF a < b THEN a ELSE b
      f == FoldLeft(LAMBDA a, d :
                      IF ~Judged(J, d) THEN a
                      ELSE IF ~Rel(J, d) THEN <<a[1] + 1, a[2]>>
                      ELSE IF a[1] = 0 THEN <<0, RAdd(a[2], "1")>>
                      ELSE <<a[1], RAdd(a[2], RSub("1", Ratio(lo(nr, a[1]), lo(nr, nn))))>>,
                    <<0, "0">>, R)
  IN  IF nr = 0 THEN "0" ELSE RDiv(f[2], RInt(nr))

-----------------------------------------------------------------------------
\* DCG (C05).  A Burges gain of 2^1024 or more exceeds every double: "inf".
Gain(w, x) == IF w = "burges" THEN (IF RLe("1024", x) THEN "inf" ELSE RSub(RPow2(x), "1")) ELSE x
DiscountTable == TLCEval([i \in 1..64 |-> RRnd(RDiv("1", RLog2(RInt(i + 1))))])
Discount(i) == IF i <= 64 THEN DiscountTable[i] ELSE RRnd(RDiv("1", RLog2(RInt(i + 1))))

\* DCG of a sequence of judged scores ("0" for unjudged documents)
DcgOf(w, xs, k) ==
  LET c  == Cut(k, Len(xs))
      gs == [i \in 1..c |-> Gain(w, xs[i])]
  IN  IF \E i \in 1..c : gs[i] = "inf" THEN "inf"
      ELSE RSum([i \in 1..c |-> IF gs[i] = "0" THEN "0" ELSE RMul(gs[i], Discount(i))])

GainSeq(J, R) == [i \in DOMAIN R |-> IF Judged(J, R[i]) THEN J[R[i]] ELSE "0"]
Ideal(J)      == LET ds == SetToSeq(DOMAIN J)
                 IN  SortSeq([i \in DOMAIN ds |-> J[ds[i]]], LAMBDA a, b : RLt(b, a))
DCG(w, J, R, k)  == DcgOf(w, GainSeq(J, R), k)
IDCG(w, J, k)    == DcgOf(w, Ideal(J), k)
MaxDouble == RMul(RSub("1", RPow2("-53")), RPow2("1024"))
NDCG(w, J, R, k) == LET i == IDCG(w, J, k)
                        d == DCG(w, J, R, k)
                    IN  IF i = "0" THEN "1"
                        ELSE IF i = "inf" \/ RLt(RMul(MaxDouble, "0.999999"), i) THEN "NaN"         \* not defined in doubles
                        ELSE RRnd(RDiv(d, i))

-----------------------------------------------------------------------------
Score(m, k, J, R) ==
  CASE m = "hits"        -> Hits(J, R, k)
    [] m = "success"     -> Success(J, R, k)
    [] m = "precision"   -> Precision(J, R, k)
    [] m = "recall"      -> Recall(J, R, k)
    [] m = "f1"          -> F1(J, R, k)
    [] m = "r_precision" -> RPrecision(J, R)
    [] m = "ap"          -> AP(J, R, k)
    [] m = "rr"          -> RR(J, R, k)
    [] m = "bpref"       -> Bpref(J, R)
    [] m = "dcg"         -> DCG("jarvelin", J, R, k)
    [] m = "ndcg"        -> NDCG("jarvelin", J, R, k)
    [] m = "dcg_burges"  -> DCG("burges", J, R, k)
    [] m = "ndcg_burges" -> NDCG("burges", J, R, k)

\* A reported double v is the exact value x up to rounding.
ScoreClose(v, x) ==
  CASE x = "NaN" -> TRUE
    [] x = "inf" -> v = "inf"
    [] OTHER     -> \/ v # "NaN" /\ IsFin(v) /\ RClose(v, x, "1e-12", "0")
                    \/ v = "inf" /\ RLt(RMul(MaxDouble, "0.999999"), x)
\* a score that must not be lower than another, up to rounding
\* (an infinite gain makes a DCG infinite and its quotient by an infinite ideal undefined)
NotLower(a, b) == IF IsFin(a) /\ IsFin(b) THEN RLe(RSub(b, RMul("1e-12", RAbs(b))), a) ELSE a = b \/ a \in {"inf", "NaN"}
Bounded(m, v) == m \in {"hits", "dcg", "dcg_burges"} \/ (RLe("0", v) /\ RLe(v, "1.000000000001"))

-----------------------------------------------------------------------------
(***************************************************************************)
(* What a score may depend on (C06): equal views give equal scores.  A     *)
(* view is the judged scores of the top k (unjudged counts as 0, trailing  *)
(* zeros dropped), plus the denominators that a metric fixes by k.  Bpref  *)
(* sees only judged documents.                                             *)
(***************************************************************************)
DropZeros(s) ==
  LET last == FoldLeft(LAMBDA m, i : IF s[i] # "0" THEN i ELSE m, 0, [i \in DOMAIN s |-> i])
  IN  SubSeq(s, 1, last)
View(m, k, J, R) ==
  IF m = "bpref"
  THEN LET js == SelectSeq(R, LAMBDA d : Judged(J, d))
       IN  [m |-> m, top |-> DropZeros([i \in DOMAIN js |-> J[js[i]]]), den |-> "", ideal |-> "", J |-> J]
  ELSE LET kk == IF m = "r_precision" THEN RInt(NRel(J)) ELSE k
           c  == IF m = "r_precision" /\ NRel(J) = 0 THEN 0 ELSE Cut(kk, Len(R))
       IN  [m |-> m,
            top   |-> DropZeros(SubSeq(GainSeq(J, R), 1, c)),
            den   |-> IF m \in {"precision", "f1"} THEN (IF k = "0" THEN RInt(Len(R)) ELSE k) ELSE "",
            ideal |-> IF m \in {"ndcg", "ndcg_burges"} THEN RInt(Cut(k, NRel(J))) ELSE "",
            J     |-> J]

\* R2 is R1 with a more relevant document moved above its less relevant neighbour.
Promotes(J, R1, R2) ==
  /\ Len(R1) = Len(R2)
  /\ \E i \in 1..(Len(R1) - 1) :
       /\ R2[i] = R1[i + 1] /\ R2[i + 1] = R1[i]
       /\ \A j \in DOMAIN R1 : j \notin {i, i + 1} => R1[j] = R2[j]
       /\ RLt(GainSeq(J, R1)[i], GainSeq(J, R1)[i + 1])
=============================================================================
