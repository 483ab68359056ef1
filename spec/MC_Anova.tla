----------------------------- MODULE MC_Anova -----------------------------
(***************************************************************************)
(* All small tables of scores (C13, C14, C15, C17), row by row.  The sums  *)
(* of squares are compared with the definition by residuals, and the exact *)
(* permutation distribution with the enumeration of all permutations.      *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS Systems, Topics, Scores, Which, Iterations

VARIABLES X, told
mvars == <<bld, sto, evs, mem, X, told>>

MInit == LInit /\ X = <<>> /\ told = FALSE
Topic == Len(X) < Topics /\ \E r \in [1..Systems -> Scores] : X' = Append(X, r) /\ UNCHANGED <<lvars, told>>
Lv == <<"1:-1", "1", "1:-4", "0", "3:-1">>
Sets == << <<"n", Iterations>>, <<"seed", "7">> >>
Script ==
  CASE Which = "C13" -> << [op |-> "anova", x |-> X, m |-> Systems, levels |-> Lv] >>
    [] Which = "C14" -> << [op |-> "tukey", x |-> X, m |-> Systems] >>
    [] Which = "C15" -> << [op |-> "rtukey", x |-> X, m |-> Systems, sets |-> Sets, via |-> "new"] >>
    [] Which = "C17" -> << [op |-> "anova", x |-> X, m |-> Systems, levels |-> Lv], [op |-> "tukey", x |-> X, m |-> Systems],
                           [op |-> "rtukey", x |-> X, m |-> Systems, sets |-> << <<"n", "2">> >>, via |-> "new"] >>
Tell == Emit("str", Script) /\ told' = TRUE /\ UNCHANGED <<lvars, X>>
MNext == ~told /\ (Topic \/ Tell)

-----------------------------------------------------------------------------
n == Len(X)
m == Systems
Y == [j \in 1..n |-> [i \in 1..m |-> RParse(X[j][i])]]
SS == SumsOfSquares(Y, m)
Grand == Mean(Flat(Y))
Residual(j, i) == RAdd(RSub(RSub(Y[j][i], Mean(Y[j])), Mean(Col(Y, i))), Grand)
ByDefinition == n >= 1 =>
  /\ SS.E = RSumSq([h \in 1..(n * m) |-> Residual(((h - 1) \div m) + 1, ((h - 1) % m) + 1)])
  /\ SS.A = RMul(RInt(n), RSumSq([i \in 1..m |-> RSub(Mean(Col(Y, i)), Grand)]))
  /\ SS.B = RMul(RInt(m), RSumSq([j \in 1..n |-> RSub(Mean(Y[j]), Grand)]))
  /\ SS.T = RAdd(SS.A, RAdd(SS.B, SS.E))
  /\ RLe("0", SS.A) /\ RLe("0", SS.B) /\ RLe("0", SS.E)
\* relabelling systems, shifting a topic
Relabelled == n >= 1 => SumsOfSquares([j \in 1..n |-> [i \in 1..m |-> Y[j][m + 1 - i]]], m) = SS
Shifted == n >= 1 => LET Z == [Y EXCEPT ![1] = [i \in 1..m |-> RAdd(Y[1][i], "5")]]
                     IN  SumsOfSquares(Z, m).A = SS.A /\ SumsOfSquares(Z, m).E = SS.E
Degenerate == n >= 2 /\ m >= 2 => (AExpect(Y, m) = {"Uncomputable"} <=> SS.E = "0")
\* with two systems the F-test of the systems is the square of the t-test of the differences
TwoSystems == (m = 2 /\ n >= 2 /\ SS.E # "0") =>
  LET d == [j \in 1..n |-> RSub(Y[j][1], Y[j][2])]
      t2 == RDiv(RMul(RInt(n), RMul(Mean(d), Mean(d))), RDiv(SSDev(d), RInt(n - 1)))
  IN  RDiv(SS.A, RDiv(SS.E, RInt(n - 1))) = t2

\* all ways to permute every topic: probability that the range reaches a difference
Tables == [1..n -> Perms(m)]
Sums(f) == [i \in 1..m |-> RSum([j \in 1..n |-> Y[j][f[j][i]]])]
RangeOf(s) == RSub(FoldLeft(LAMBDA a, x : RMax(a, x), s[1], s), FoldLeft(LAMBDA a, x : RMin(a, x), s[1], s))
Brute(d) == RDiv(RInt(Cardinality({ f \in Tables : RLe(d, RangeOf(Sums(f))) })), RInt(Cardinality(Tables)))
PermExact == (Which = "C15" /\ n >= 1 /\ TukeyFits(m, Y)) =>
  LET P == TukeyTails(m, Y)
      s == [i \in 1..m |-> RSum(Col(Y, i))]
  IN  \A i, j \in 1..m : i # j => /\ P.ge[i][j] = Brute(RAbs(RSub(s[i], s[j]))) /\ RLe(P.lo[i][j], P.ge[i][j]) /\ P.ge[i][j] = P.ge[j][i]
=============================================================================
