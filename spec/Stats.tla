------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* Paired t-test, two-way ANOVA without replication and Tukey HSD effect   *)
(* sizes.  Means and sums of squares are exact rationals; tail             *)
(* probabilities come from the regularized incomplete beta function at     *)
(* half-integer arguments, by its recurrences from four closed forms.      *)
(***************************************************************************)
EXTENDS Store

(***************************************************************************)
(* Open: the known findings (see known_findings.txt), genuine defects that *)
(* this specification has to live with.  Each is the permission to give    *)
(* one more answer on exactly the inputs that the finding describes:       *)
(*   nan-level             a margin at the level NaN panics                *)
(*   constant-differences  equal differences whose multiples are not       *)
(*                         doubles are taken for differing ones            *)
(*   one-system            ANOVA and Tukey HSD of fewer than two systems   *)
(*                         panic                                           *)
(*   zero-residual         ANOVA and Tukey HSD without residual panic or   *)
(*                         report ratios of rounding errors                *)
(*   rounded-ties          the randomized Tukey HSD test may miss ties     *)
(*                         between means that are rounded differently      *)
(* With Open = {} nothing is permitted.                                    *)
(***************************************************************************)
CONSTANT Open

-----------------------------------------------------------------------------
\* I_x(p/2, q/2) for integers p, q >= 1 and rational x in [0, 1]
Half(n) == RDiv(RInt(n), "2")
BetaReg(x, p, q) ==
  IF RLe(x, "0") THEN "0" ELSE IF RLe("1", x) THEN "1"
  ELSE
  LET y  == RSub("1", x)
      p0 == IF p % 2 = 1 THEN 1 ELSE 2
      q0 == IF q % 2 = 1 THEN 1 ELSE 2
      I0 == CASE p0 = 1 /\ q0 = 1 -> RMul(RDiv("2", RPi), RAtan(RSqrt(RDiv(x, y))))
              [] p0 = 2 /\ q0 = 2 -> x
              [] p0 = 1 /\ q0 = 2 -> RSqrt(x)
              [] OTHER            -> RSub("1", RSqrt(y))
      \* W(p, q) = x^(p/2) y^(q/2) / B(p/2, q/2)
      W0 == CASE p0 = 1 /\ q0 = 1 -> RDiv(RSqrt(RMul(x, y)), RPi)
              [] p0 = 2 /\ q0 = 2 -> RMul(x, y)
              [] p0 = 1 /\ q0 = 2 -> RMul(Half(1), RMul(RSqrt(x), y))
              [] OTHER            -> RMul(Half(1), RMul(x, RSqrt(y)))
      \* raise q, then p: I(p, q+2) = I + W/(q/2);  I(p+2, q) = I - W/(p/2)
      qs == [i \in 1..((q - q0) \div 2) |-> q0 + 2 * (i - 1)]
      ps == [i \in 1..((p - p0) \div 2) |-> p0 + 2 * (i - 1)]
      up == FoldLeft(LAMBDA a, j :
               << RRnd(RAdd(a[1], RDiv(a[2], Half(j)))),
                  RRnd(RMul(a[2], RMul(y, RDiv(Half(p0 + j), Half(j))))) >>,
               << RRnd(I0), RRnd(W0) >>, qs)
      dn == FoldLeft(LAMBDA a, j :
               << RRnd(RSub(a[1], RDiv(a[2], Half(j)))),
                  RRnd(RMul(a[2], RMul(x, RDiv(Half(j + q), Half(j))))) >>,
               up, ps)
  IN  RMin(RMax(dn[1], "0"), "1")

\* two-sided Student-t tail of |t| and upper F tail, as incomplete betas
TArg(t, nu)     == RDiv(RInt(nu), RAdd(RInt(nu), RMul(t, t)))
TTail2(t, nu)   == BetaReg(TArg(t, nu), nu, 1)
FArg(f, d1, d2) == RDiv(RInt(d2), RAdd(RInt(d2), RMul(RInt(d1), f)))
FTail(f, d1, d2) == BetaReg(FArg(f, d1, d2), d2, d1)

(***************************************************************************)
(* A reported tail probability agrees with the exact one when the argument *)
(* of the incomplete beta is known up to double rounding: relative 2^-50   *)
(* and absolute 4e-15 (the latter covers 1 - x/(x+y) computed in doubles). *)
(***************************************************************************)
ArgLo(x) == RMax("0", RSub(RMul(x, RSub("1", RPow2("-50"))), "4e-15"))
ArgHi(x) == RMin("1", RAdd(RMul(x, RAdd("1", RPow2("-50"))), "4e-15"))
TailOK(v, x, p, q) ==
  /\ IsFin(v)
  /\ RLe(RSub(RMul(BetaReg(RRnd(ArgLo(x)), p, q), "0.999999999"), "1e-40"), v)
  /\ RLe(v, RAdd(RMul(BetaReg(RRnd(ArgHi(x)), p, q), "1.000000001"), "1e-40"))
TTailOK(v, t, nu)     == TailOK(v, RRnd(TArg(t, nu)), nu, 1)
FTailOK(v, f, d1, d2) == TailOK(v, RRnd(FArg(f, d1, d2)), d2, d1)

\* w is the half-width of scale se whose two-sided tail is the level a (checked for a >= 1e-4)
MoeOK(w, se, nu, a) ==
  IF RLt(a, "1e-4") THEN w # "NaN" /\ (IsFin(w) => RLe("0", w))
  ELSE /\ IsFin(w) /\ RLe("0", w)
       /\ LET x == RRnd(TArg(RDiv(w, se), nu))
          IN  /\ RLe(RMul(BetaReg(RRnd(ArgLo(x)), nu, 1), "0.999999"), a)
              /\ RLe(a, RMul(BetaReg(RRnd(ArgHi(x)), nu, 1), "1.000001"))

LevelOK(a) == IsFin(a) /\ RLt("0", a) /\ RLe(a, "1")

-----------------------------------------------------------------------------
\* Rounding: N values of magnitude at most M, summed in doubles.
U  == RPow2("-53")
NearMean(v, x, n, M) == IsFin(v) /\ RLe(RAbs(RSub(v, x)), RMul(RMul(RInt(4 * n + 8), U), M))
\* A sum of N squared deviations, each of them known up to dev.
NearSS(v, x, N, dev) ==
  /\ IsFin(v)
  /\ RLe(RAbs(RSub(v, x)),
         RAdd(RMul("1e-12", x),
              RAdd(RMul(RMul("2", dev), RSqrt(RMul(RInt(N), RRnd(x)))), RMul(RInt(N), RMul(dev, dev)))))
Near(v, x) == IsFin(v) /\ RClose(v, x, "1e-12", "0")

Mean(xs) == RDiv(RSum(xs), RInt(Len(xs)))
SSDev(xs) == RSub(RSumSq(xs), RDiv(RMul(RSum(xs), RSum(xs)), RInt(Len(xs))))

-----------------------------------------------------------------------------
\* Paired t-test (C11) of a sequence of pairs; differences as computed in doubles
Diffs(prs) == [i \in DOMAIN prs |-> RNearest(RSub(RParse(prs[i][1]), RParse(prs[i][2])))]
Constant(xs) == \A i \in DOMAIN xs : xs[i] = xs[1]
\* the multiples c, 2c, ..., nc that a variance is computed from are not all doubles
Inexact(c, n) == \E i \in 2..n : RNearest(RMul(RInt(i), c)) # RMul(RInt(i), c)
\* differing by roundings only: the variance that doubles give may be 0
Jitter(xs) == \A i \in DOMAIN xs : RLe(RAbs(RSub(xs[i], xs[1])), RMul(RMul(RInt(4 * Len(xs) + 8), U), RMaxAbs(xs)))
TExpect(prs) ==                               \* "ok" or the error kinds that fit
  LET xs == Diffs(prs)
  IN  IF Len(prs) < 2 THEN {"InvalidArgument"}
      ELSE IF ~Constant(xs) THEN (IF Jitter(xs) THEN {"ok", "Uncomputable"} ELSE {"ok"})
      ELSE IF "constant-differences" \in Open /\ Inexact(xs[1], Len(xs)) THEN {"ok", "Uncomputable"}
      ELSE {"Uncomputable"}

TTestOK(prs, r) ==
  LET xs == Diffs(prs)
      n  == Len(xs)
      M  == RMaxAbs(xs)
      ss == SSDev(xs)
      dev == RMul(RMul(RInt(4 * n + 8), U), M)
      se  == RSqrt(RDiv(r.var, RInt(n)))
  IN  /\ r.n = n
      /\ NearMean(r.mean, Mean(xs), n, M)
      /\ IsFin(r.var) /\ RLt("0", r.var)
      /\ NearSS(RMul(r.var, RInt(n - 1)), ss, n, dev)
      /\ Near(r.es, RDiv(r.mean, RSqrt(r.var)))
      /\ Near(r.t, RDiv(r.mean, se))
      /\ TTailOK(r.p, r.t, n - 1)
      /\ \A i \in DOMAIN r.lv :
            (LevelOK(r.lv[i].a) /\ r.lv[i].moe.st = "ok") =>
               LET w == r.lv[i].moe.v
               IN /\ MoeOK(w, se, n - 1, r.lv[i].a)
                  \* the interval is mean -/+ margin, and excludes 0 exactly when p < a
                  /\ (r.lv[i].ci.st = "ok" /\ IsFin(w)) =>
                        /\ IsFin(r.lv[i].ci.lo) /\ IsFin(r.lv[i].ci.hi)
                        /\ RClose(r.lv[i].ci.lo, RSub(r.mean, w), "1e-12", RMul("1e-12", RMax(w, RAbs(r.mean))))
                        /\ RClose(r.lv[i].ci.hi, RAdd(r.mean, w), "1e-12", RMul("1e-12", RMax(w, RAbs(r.mean))))
                        /\ (RLe("1e-4", r.lv[i].a) /\ ~RClose(r.p, r.lv[i].a, "1e-5", "0")) =>
                             ((RLt("0", r.lv[i].ci.lo) \/ RLt(r.lv[i].ci.hi, "0")) <=> RLt(r.p, r.lv[i].a))

-----------------------------------------------------------------------------
\* Two-way ANOVA without replication (C13).  X[j][i]: topic j, system i.
NT(X) == Len(X)
Col(X, i) == [j \in DOMAIN X |-> X[j][i]]
Flat(X) == FoldLeft(LAMBDA a, row : a \o row, <<>>, X)
\* exact sums of squares (systems, topics, residual) of a complete n x m table
SumsOfSquares(X, m) ==
  LET n   == Len(X)
      all == Flat(X)
      cor == RDiv(RMul(RSum(all), RSum(all)), RInt(n * m))
      A   == RSub(RDiv(RSumSq([i \in 1..m |-> RSum(Col(X, i))]), RInt(n)), cor)
      B   == RSub(RDiv(RSumSq([j \in 1..n |-> RSum(X[j])]), RInt(m)), cor)
      T   == RSub(RSumSq(all), cor)
  IN  [A |-> A, B |-> B, T |-> T, E |-> RSub(RSub(T, A), B)]

Rect(X, m) == \A j \in DOMAIN X : Len(X[j]) = m
Dev(X, m)  == RMul(RMul(RInt(4 * Len(X) * m + 16), U), RMaxAbs(Flat(X)))
AInvalid(X, m) == ~Rect(X, m) \/ Len(X) < 2 \/ m < 2
\* without residual, or with residuals below rounding
NoResidual(X, m) == LET E == SumsOfSquares(X, m).E
                    IN  E = "0" \/ RLe(E, RMul(RInt(Len(X) * m), RMul(Dev(X, m), Dev(X, m))))
\* the answers that the known findings permit
AKnown(X, m) == IF AInvalid(X, m)
                THEN IF "one-system" \in Open /\ m < 2 /\ Rect(X, m) /\ Len(X) >= 2 THEN {"panic"} ELSE {}
                ELSE IF "zero-residual" \in Open /\ NoResidual(X, m) THEN {"panic", "ok"} ELSE {}
AExpect(X, m) ==
  IF AInvalid(X, m) THEN {"InvalidArgument"}
  ELSE IF NoResidual(X, m)
       THEN IF SumsOfSquares(X, m).E = "0" THEN {"Uncomputable"} ELSE {"ok", "Uncomputable"}
       ELSE {"ok"}

AnovaOK(X, m, r) ==
  LET n  == Len(X)
      S  == SumsOfSquares(X, m)
      M  == RMaxAbs(Flat(X))
      d  == Dev(X, m)
      N  == n * m
      dE == (m - 1) * (n - 1)
  IN  /\ r.m = m /\ r.n = n
      /\ Len(r.sm) = m /\ \A i \in 1..m : NearMean(r.sm[i], Mean(Col(X, i)), n, M)
      /\ Len(r.tm) = n /\ \A j \in 1..n : NearMean(r.tm[j], Mean(X[j]), m, M)
      /\ NearSS(r.sA, S.A, N, d) /\ NearSS(r.sB, S.B, N, d) /\ NearSS(r.sE, S.E, N, d)
      /\ NearSS(RAdd(r.sA, RAdd(r.sB, r.sE)), S.T, N, d)
      /\ Near(r.vA, RDiv(r.sA, RInt(m - 1))) /\ Near(r.vB, RDiv(r.sB, RInt(n - 1)))
      /\ Near(r.vE, RDiv(r.sE, RInt(dE)))
      /\ RLt("0", r.vE)
      /\ Near(r.fA, RDiv(r.vA, r.vE)) /\ Near(r.fB, RDiv(r.vB, r.vE))
      /\ FTailOK(r.pA, r.fA, m - 1, dE) /\ FTailOK(r.pB, r.fB, n - 1, dE)
      /\ \A i \in DOMAIN r.lv :
            (LevelOK(r.lv[i].a) /\ r.lv[i].moe.st = "ok") =>
               MoeOK(r.lv[i].moe.v, RSqrt(RDiv(r.vE, RInt(n))), dE, r.lv[i].a)

-----------------------------------------------------------------------------
\* Tukey HSD effect sizes (C14)
TukeyOK(X, m, r) ==
  LET n   == Len(X)
      N   == n * m
      S   == SumsOfSquares(X, m)
      d   == Dev(X, m)
      vE  == RDiv(S.E, RInt((m - 1) * (n - 1)))
      sd  == RSqrt(RRnd(vE))
      \* relative uncertainty of the residual variance in doubles
      rho == RAdd("1e-12", RDiv(RAdd(RMul(RMul("2", d), RSqrt(RMul(RInt(N), RRnd(S.E)))),
                                     RMul(RInt(N), RMul(d, d))), S.E))
      mu  == [i \in 1..m |-> Mean(Col(X, i))]
  IN  /\ r.m = m /\ r.n = n
      /\ Len(r.es) = m /\ \A i \in 1..m : Len(r.es[i]) = m
      /\ \A i, j \in 1..m : IsFin(r.es[i][j])
      /\ \A i \in 1..m : RCmp(r.es[i][i], "0") = 0
      /\ \A i, j \in 1..m : RCmp(r.es[i][j], RNeg(r.es[j][i])) = 0
      /\ RLt(rho, "0.1") =>
           \A i, j \in 1..m :
              LET x == RDiv(RSub(mu[i], mu[j]), sd)
              IN  RLe(RAbs(RSub(r.es[i][j], x)), RAdd(RMul(rho, RAbs(x)), RDiv(RMul("2", d), sd)))
=============================================================================
