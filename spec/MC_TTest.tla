----------------------------- MODULE MC_TTest -----------------------------
(***************************************************************************)
(* All short sequences of paired samples with small differences (C11, C12, *)
(* C17).  For C12 the exact bootstrap distribution is compared with the    *)
(* enumeration of all resamples.                                           *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS Samples, Differences, Which, Resamples

VARIABLES prs, told
mvars == <<bld, sto, evs, mem, prs, told>>

MInit == LInit /\ prs = <<>> /\ told = FALSE
Sample == Len(prs) < Samples /\ \E d \in Differences : prs' = Append(prs, <<RAdd(d, RInt(Len(prs))), RInt(Len(prs))>>) /\ UNCHANGED <<lvars, told>>
Swapped == [i \in DOMAIN prs |-> <<prs[i][2], prs[i][1]>>]
Lv == <<"1:-1", "1", "1:-3", "1:-7", "0", "3:-1">>
Script ==
  CASE Which = "C11" -> << [op |-> "ttest", x |-> prs, levels |-> Lv], [op |-> "ttest", x |-> Swapped, levels |-> Lv] >>
    [] Which = "C12" -> << [op |-> "boot", x |-> prs, sets |-> << <<"n", Resamples>>, <<"seed", "1">> >>, via |-> "new"],
                           [op |-> "boot", x |-> Swapped, sets |-> << <<"seed", "18446744073709551615">>, <<"n", Resamples>> >>, via |-> "new"] >>
    [] Which = "C17" -> << [op |-> "ttest", x |-> prs, levels |-> Lv], [op |-> "boot", x |-> prs, sets |-> << <<"n", "3">> >>, via |-> "new"],
                           [op |-> "boot", x |-> prs, sets |-> <<>>, via |-> "from"] >>
Tell == Emit("str", Script) /\ told' = TRUE /\ UNCHANGED <<lvars, prs>>
MNext == ~told /\ (Sample \/ Tell)

-----------------------------------------------------------------------------
xs == Diffs(prs)
n  == Len(xs)
Computable == TExpect(prs) = {"ok"}
V  == RDiv(SSDev(xs), RInt(n - 1))
T2 == RDiv(RMul(RInt(n), RMul(Mean(xs), Mean(xs))), V)
P  == BetaReg(RDiv(RInt(n - 1), RAdd(RInt(n - 1), T2)), n - 1, 1)
\* t-tests: degenerate exactly when the variance is zero; p in [0, 1], 1 exactly at mean zero; swapping only turns the sign
VarianceZero == n >= 2 => ((SSDev(xs) = "0") <=> TExpect(prs) = {"Uncomputable"})
PInUnit == Computable => /\ RLe("0", P) /\ RLe(P, "1") /\ (P = "1" <=> Mean(xs) = "0")
SwapTurns == Computable => Mean(Diffs(Swapped)) = RNeg(Mean(xs)) /\ SSDev(Diffs(Swapped)) = SSDev(xs)
\* two points: the distribution with one degree of freedom is that of Cauchy
Cauchy == (Computable /\ n = 2) => RClose(P, RMul(RDiv("2", RPi), RAtan(RSqrt(RDiv("1", T2)))), "1e-40", "1e-60") \/ T2 = "0"

\* the enumeration of all resamples: probability of |t*| >= |t|
Sq(f) == LET m == RDiv(RSum(f), RInt(n))
             v == RDiv(SSDev(f), RInt(n - 1))
         IN  IF v = "0" THEN "0" ELSE RDiv(RMul(RInt(n), RMul(m, m)), v)
Centred == [i \in 1..n |-> RSub(xs[i], Mean(xs))]
Brute == LET F == [1..n -> 1..n]
             t == Sq(xs)
         IN  RDiv(RInt(Cardinality({ f \in F : RLe(t, Sq([i \in 1..n |-> Centred[f[i]]])) })), RInt(Cardinality(F)))
BootExact == (Which = "C12" /\ Computable /\ n <= 4) => /\ BootFits(xs) /\ BootTail(xs).ge = Brute /\ RLe(BootTail(xs).lo, Brute)
BootSwap == (Which = "C12" /\ Computable) => BootTail(xs) = BootTail(Diffs(Swapped))
BootOne  == (Which = "C12" /\ Computable /\ RSum(xs) = "0") => BootTail(xs).lo = "1"
=============================================================================
