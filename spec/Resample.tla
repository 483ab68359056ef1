------------------------------ MODULE Resample ------------------------------
(***************************************************************************)
(* The resampling processes behind the bootstrap test and the randomized   *)
(* Tukey HSD test.  Both are defined as finite random processes in which   *)
(* every draw is equally likely; their exact distributions are computed by *)
(* following all draws at once, step by step (a step of the process is one *)
(* resampled item, or one permuted topic).                                 *)
(***************************************************************************)
EXTENDS Stats

\* Scale a sequence of dyadic numbers to integers (TLC integers), or fail to: {} if they do not fit.
Pow2s == [j \in 0..40 |-> RPow2(RInt(j))]
ScaleOf(xs) == LET js == { j \in 0..40 : \A i \in DOMAIN xs : RIsInt(RMul(xs[i], Pow2s[j])) }
               IN  IF js = {} THEN -1 ELSE CHOOSE j \in js : \A l \in js : j <= l
SumInts(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
\* small enough to be followed exactly
Fits(xs) == /\ ScaleOf(xs) >= 0
            /\ RLe(RMul(RMaxAbs(xs), Pow2s[ScaleOf(xs)]), "200")
Ints(xs) == LET f == Pow2s[ScaleOf(xs)] IN [i \in DOMAIN xs |-> RToInt(RMul(xs[i], f))]
Distinct1(xs) == Cardinality({ xs[i] : i \in DOMAIN xs })
\* multisets of size n over d values
Multisets(n, d) == FoldLeft(LAMBDA a, i : RDiv(RMul(a, RInt(n + i)), RInt(i)), "1", [i \in 1..(d - 1) |-> i])
\* few samples, or few different ones
BootFits(xs) ==
  /\ Len(xs) <= 200 /\ Fits(xs)
  /\ \/ Len(xs) <= 10
     \/ LET n  == Len(xs)
            zs == Ints(xs)
            hi == RToInt(RMaxAbs([i \in 1..n |-> RInt(zs[i])]))
            d  == Distinct1(zs)
            sums == RMul(RInt(2 * n * hi + 1), RInt(n * hi * hi + 1))
        IN  /\ RLt(RMul(RInt(4 * n * n), RMul(RInt(n), RInt(hi * hi))), "2147483647")
            /\ RLe(RMul(RInt(n * d), RMin(sums, Multisets(n, d))), "700000")
\* the spread of the sums that permuting can give
Spread(m, X) == LET range(x) == LET up == RMaxAbs([i \in 1..m |-> RMax("0", RSub(x[i], x[1]))])
                                    down == RMaxAbs([i \in 1..m |-> RMax("0", RSub(x[1], x[i]))])
                                IN  RAdd(up, down)
                IN  RMul(Pow2s[ScaleOf(Flat(X))], RSum([j \in DOMAIN X |-> range(X[j])]))
Factorial(m) == FoldLeft(LAMBDA a, i : a * i, 1, [i \in 1..m |-> i])
TukeyFits(m, X) ==
  /\ m \in 2..5 /\ Len(X) <= 200 /\ Fits(Flat(X))
  /\ LET w == RAdd(Spread(m, X), "1")
     IN  RLe(RMul(RInt(Len(X) * m), RMin(RIPow(w, m - 1), RIPow(RInt(Factorial(m)), Len(X)))), "4000000")

(***************************************************************************)
(* A distribution is a sequence of <<outcome, weight>>, outcomes distinct. *)
(***************************************************************************)
Total(F) == RSum([i \in DOMAIN F |-> F[i][2]])
Mass(F, Ok(_)) == RSum([i \in DOMAIN F |-> IF Ok(F[i][1]) THEN F[i][2] ELSE "0"])
\* the next step of a process: outcome f followed by draw q, drawn in w(q) of the equally likely ways
Step(F, Q, Then(_, _), w(_)) ==
  LET n == Len(Q)
  IN  RTally([i \in 1..(Len(F) * n) |->
                LET f == F[((i - 1) \div n) + 1]
                    q == Q[((i - 1) % n) + 1]
                IN  <<Then(f[1], q), RMul(f[2], RInt(w(q)))>>])

-----------------------------------------------------------------------------
(***************************************************************************)
(* Bootstrap.  With y_i = n*x_i - sum(x) (the centred differences, scaled  *)
(* by n) a resample draws n of the y with replacement; its statistic only  *)
(* depends on S = sum and Q = sum of squares:                              *)
(*    t^2 = S^2 (n-1) / (nQ - S^2),   and t = 0 when nQ = S^2.             *)
(***************************************************************************)
BootDist(ys) ==
  LET Y == SetToSeq({ ys[i] : i \in DOMAIN ys })
      mult(y) == Cardinality({ i \in DOMAIN ys : ys[i] = y })
  IN  FoldLeft(LAMBDA F, i : Step(F, Y, LAMBDA f, y : <<f[1] + y, f[2] + y * y>>, mult),
               << << <<0, 0>>, "1" >> >>, ys)

(***************************************************************************)
(* Tail probabilities of |t*| against the observed |t|.  A resample with   *)
(* V* = 0 counts as t* = 0.  `ge` counts every tie.  A tie in exact        *)
(* arithmetic may be decided either way by doubles, as the rounding of a   *)
(* variance depends on the order of the items; `lo` counts ties only where *)
(* the observed t is 0.  Known findings: a constant resample that is not   *)
(* exact may count as one of huge |t| ("constant-differences"), and an     *)
(* observed mean of 0 may not be seen to be 0 ("rounded-ties").            *)
(***************************************************************************)
\* nothing is rounded in accumulating the mean of xs, in this order or in any order
ExactMeans(xs) == \A i \in DOMAIN xs : LET m == Mean(SubSeq(xs, 1, i)) IN RNearest(m) = m
ExactMeansAnyhow(xs) == Len(xs) <= 10 /\ \A s \in SUBSET DOMAIN xs : s # {} => LET i == SetToSeq(s) m == Mean([j \in DOMAIN i |-> xs[i[j]]]) IN RNearest(m) = m
SeenZeroIf(xs, exact) == RSum(xs) = "0" /\ ("rounded-ties" \in Open => exact)
SeenZero(xs) == SeenZeroIf(xs, ExactMeans(xs))
BootTailIf(xs, exact) ==
  LET zs == Ints(xs)
      n  == Len(zs)
      S0 == SumInts(zs)
      ys == [i \in 1..n |-> n * zs[i] - S0]
      s0 == RInt(S0)
      q0 == RSumSq([i \in 1..n |-> RInt(zs[i])])
      v0 == RSub(RMul(RInt(n), q0), RMul(s0, s0))
      V(s) == RSub(RMul(RInt(n), RInt(s[2])), RMul(RInt(s[1]), RInt(s[1])))
      C(s) == LET S == RInt(s[1])
                  v == V(s)
              IN  IF v = "0" THEN RCmp("0", RMul(s0, s0))
                  ELSE RCmp(RMul(RMul(S, S), v0), RMul(RMul(s0, s0), v))
      rounded == "constant-differences" \in Open /\ ~exact
      Slip(s) == rounded /\ V(s) = "0"
      zero == SeenZeroIf(xs, exact)
      F  == BootDist(ys)
      all == RIPow(RInt(n), n)
  IN  [ge |-> RDiv(Mass(F, LAMBDA s : C(s) >= 0 \/ Slip(s)), all),
       lo |-> RDiv(Mass(F, LAMBDA s : C(s) > 0 \/ zero), all)]
BootTail(xs) == BootTailIf(xs, ExactMeans(xs))

-----------------------------------------------------------------------------
(***************************************************************************)
(* Randomized Tukey HSD.  An iteration permutes every topic's scores over  *)
(* the systems.  The process state is the vector of system sums; its range *)
(* at the end is what counts.  Systems are exchangeable in this process,   *)
(* so states are kept up to reordering and a common shift.                 *)
(***************************************************************************)
Perms(m) == TLCEval({ p \in [1..m -> 1..m] : { p[i] : i \in 1..m } = 1..m })
\* the distinct outcomes of permuting x, each arising from equally many permutations
Permuted(m, x) == SetToSeq({ [i \in 1..m |-> x[p[i]]] : p \in Perms(m) })
Canonical(v) == LET u == SortSeq(v, <) IN [i \in DOMAIN u |-> u[i] - u[1]]
PermDist(m, X) ==
  FoldLeft(LAMBDA F, x : Step(F, Permuted(m, x), LAMBDA f, q : Canonical([i \in 1..m |-> f[i] + q[i]]), LAMBDA q : 1),
           << <<[i \in 1..m |-> 0], "1">> >>, X)

IntTable(X) == LET f == Pow2s[ScaleOf(Flat(X))] IN [j \in DOMAIN X |-> [i \in DOMAIN X[j] |-> RToInt(RMul(X[j][i], f))]]

(***************************************************************************)
(* Exact tail probabilities of every pair: matrices of rationals.  `ge`    *)
(* counts all ties; `lo` only those where highest and lowest sum are the   *)
(* observed ones (so that their means are rounded alike) or where nothing  *)
(* is rounded, n being a power of two.  Without the known finding          *)
(* "rounded-ties" the two are the same.                                    *)
(***************************************************************************)
TukeyTails(m, X) ==
  LET Z == IntTable(X)
      n == Len(X)
      F == PermDist(m, Z)
      all == Total(F)
      T == [i \in 1..m |-> SumInts(Col(Z, i))]
      total == SumInts(T)
      \* lowest and highest sum of a canonical vector (its elements add up to total again when shifted back)
      G == RTally([i \in DOMAIN F |-> LET v == F[i][1]
                                         lo == (total - SumInts(v)) \div m
                                     IN  << <<lo, lo + v[m]>>, F[i][2] >>])
      ab(a) == IF a < 0 THEN -a ELSE a
      exact == "rounded-ties" \notin Open \/ n \in {1, 2, 4, 8, 16}
      Ge(g, d) == g[2] - g[1] >= d
      Sure(g, a, b) == \/ g[2] - g[1] > ab(a - b)
                       \/ g[2] - g[1] = ab(a - b) /\ (exact \/ { g[1], g[2] } = { a, b })
      pairs == { <<T[i], T[j]>> : i, j \in 1..m }
      H == TLCEval([p \in pairs |-> RDiv(Mass(G, LAMBDA g : Ge(g, ab(p[1] - p[2]))), all)])
      L == TLCEval([p \in pairs |-> RDiv(Mass(G, LAMBDA g : Sure(g, p[1], p[2])), all)])
  IN  [ge |-> [i \in 1..m |-> [j \in 1..m |-> IF i = j THEN "1" ELSE H[<<T[i], T[j]>>]]],
       lo |-> [i \in 1..m |-> [j \in 1..m |-> IF i = j THEN "1" ELSE L[<<T[i], T[j]>>]]]]

-----------------------------------------------------------------------------
(***************************************************************************)
(* A reported p-value from N iterations against the exact probability p:   *)
(* Bernstein's inequality, false-alarm probability below 2 exp(-25).       *)
(***************************************************************************)
DevOK(v, p, N) == LET e == RAbs(RMul(N, RSub(v, p)))
                  IN  RLe(RMul(e, e), RMul("50", RAdd(RMul(N, RMul(p, RSub("1", p))), RDiv(e, "3"))))
                      /\ (p = "0" => v = "0") /\ (p = "1" => v = "1")
\* between two exact probabilities (a tie that doubles may decide either way)
DevBetween(v, lo, hi, N) == \/ RLe(lo, v) /\ RLe(v, hi)
                            \/ DevOK(v, lo, N) \/ DevOK(v, hi, N)
MultipleOK(v, N) == /\ IsFin(v) /\ RLe("0", v) /\ RLe(v, "1")
                    /\ LET c == RMul(v, N)
                           w == RAdd(c, "0.5")
                       IN  RLe(RAbs(RSub(c, RFloor(w))), "1e-6")

BootOK(xs, v, N) ==
  /\ MultipleOK(v, N)
  /\ BootFits(xs) =>
       /\ SeenZero(xs) => RCmp(v, "1") = 0
       /\ LET T == BootTail(xs) IN DevBetween(v, T.lo, T.ge, N)

\* p[i][j], the matrix of one run
RTukeyOK(X, m, p, N) ==
  LET M == RMaxAbs(Flat(X))
      sums == [i \in 1..m |-> RSum(Col(X, i))]
      dif(i, j) == RAbs(RSub(sums[i], sums[j]))
      \* differences of sums that doubles must tell apart
      sep == RMul(RMul(RInt(16 * Len(X) + 64), U), RMul(RInt(Len(X)), M))
  IN  /\ Len(p) = m /\ \A i \in 1..m : Len(p[i]) = m
      /\ \A i, j \in 1..m : MultipleOK(p[i][j], N)
      /\ \A i, j \in 1..m : RCmp(p[i][j], p[j][i]) = 0
      /\ \A i \in 1..m : RCmp(p[i][i], "1") = 0
      \* larger observed differences have smaller p-values
      /\ \A i, j, k, l \in 1..m :
            (i # j /\ k # l /\ RLt(RAdd(dif(i, j), sep), dif(k, l))) => RLe(p[k][l], p[i][j])
      /\ TukeyFits(m, X) =>
            LET T == TukeyTails(m, X)
            IN  \A i, j \in 1..m : DevBetween(p[i][j], T.lo[i][j], T.ge[i][j], N)

=============================================================================
