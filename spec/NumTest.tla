------------------------------ MODULE NumTest ------------------------------
(* Self-test of the rational override: run before any verdict is trusted.  *)
EXTENDS Num, TLC, SequencesExt
Xs == {"0", "1", "-1", "1/2", "-7/3", "22/7", "123456789012345678901234567891/7"}
ASSUME RParse("3:-1") = "3/2" /\ RParse("0.25") = "1/4" /\ RParse("-0:0") = "0" /\ RParse("5:3") = "40"
ASSUME RParse("1e3") = "1000" /\ RParse("6/4") = "3/2"
ASSUME \A a, b \in Xs : RAdd(a, b) = RAdd(b, a) /\ RMul(a, b) = RMul(b, a) /\ RSub(RAdd(a, b), b) = a
ASSUME \A a, b, c \in Xs : RMul(a, RAdd(b, c)) = RAdd(RMul(a, b), RMul(a, c))
ASSUME \A a, b \in Xs : (b # "0") => RMul(RDiv(a, b), b) = a
ASSUME \A a, b \in Xs : RLe(a, b) <=> RCmp(a, b) < 1
ASSUME \A a, b \in Xs : RLt(a, b) <=> RLt("0", RSub(b, a))
ASSUME \A i, j \in -20..20 : RAdd(RInt(i), RInt(j)) = RInt(i + j) /\ RMul(RInt(i), RInt(j)) = RInt(i * j)
ASSUME \A i, j \in -20..20 : (RCmp(RInt(i), RInt(j)) = 0) <=> (i = j)
ASSUME \A i \in 1..50 : RClose(RMul(RSqrt(RInt(i)), RSqrt(RInt(i))), RInt(i), "1e-70", "0")
ASSUME \A i \in 1..20, j \in 1..20 : RClose(RAdd(RLog2(RInt(i)), RLog2(RInt(j))), RLog2(RInt(i * j)), "1e-70", "1e-75")
ASSUME \A i \in 0..10 : RLog2(RPow2(RInt(i))) = RInt(i)
ASSUME RClose(RMul("4", RAtan("1")), RPi, "1e-70", "0")
ASSUME RClose(RAdd(RAtan("1/2"), RAtan("1/3")), RAtan("1"), "1e-70", "0")
ASSUME RClose(RAdd(RAtan("3"), RAtan("1/3")), RDiv(RPi, "2"), "1e-70", "0")
ASSUME RLt("3.14159265358979323846", RPi) /\ RLt(RPi, "3.14159265358979323847")
ASSUME RNearest("0.1") = RParse("3602879701896397:-55")
ASSUME RSum(<<"1/2", "1/3", "1/6">>) = "1" /\ RSum(<<>>) = "0" /\ RSumSq(<<"-1/2", "2">>) = "17/4"
ASSUME RMaxAbs(<<"-3", "2">>) = "3"
ASSUME Chars("a@1") = <<97, 64, 49>> /\ StrOf(<<97, 64, 49>>) = "a@1"
ASSUME StrCmp("a", "b") = -1 /\ StrCmp("10", "9") = -1 /\ StrCmp("ab", "a") = 1 /\ StrCmp("", "") = 0
ASSUME RToInt("17") = 17 /\ RFits("17") /\ ~RFits("18446744073709551615") /\ ~RFits("1/2")
ASSUME RFloor("7/2") = "3" /\ RFloor("-7/2") = "-4" /\ RFloor("5") = "5"
F1(ps) == [k \in { ps[i][1] : i \in DOMAIN ps } |-> LET i == CHOOSE i \in DOMAIN ps : ps[i][1] = k /\ \A j \in DOMAIN ps : ps[j][1] = k => i <= j IN ps[i][2]]
F2(rs) == [q \in { rs[i][1] : i \in DOMAIN rs } |->
            F1([i \in DOMAIN SelectSeq(rs, LAMBDA r : r[1] = q) |-> <<SelectSeq(rs, LAMBDA r : r[1] = q)[i][2], SelectSeq(rs, LAMBDA r : r[1] = q)[i][3]>>])]
Ks == {"b", "a", "10"}
ASSUME \A n \in 0..3 : \A ps \in [1..n -> Ks \X {"1", "2"}] : FunOf(ps) = F1(ps) /\ DOMAIN FunOf(ps) = DOMAIN F1(ps) /\ \A k \in DOMAIN F1(ps) : FunOf(ps)[k] = F1(ps)[k]
ASSUME \A n \in 0..2 : \A rs \in [1..n -> Ks \X Ks \X {"1", "2"}] : Fun2Of(rs) = F2(rs) /\ \A k \in DOMAIN F2(rs) : Fun2Of(rs)[k] = F2(rs)[k]
ASSUME \A D \in SUBSET {"", "10", "9", "a", "ab", "z"} : SortStr(SetToSeq(D), FALSE) = SortSeq(SetToSeq(D), LAMBDA a, b : StrCmp(a, b) < 0)
ASSUME \A D \in SUBSET {"10", "9", "-1", "18446744073709551615", "0"} : SortStr(SetToSeq(D), TRUE) = SortSeq(SetToSeq(D), LAMBDA a, b : RLt(a, b))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
