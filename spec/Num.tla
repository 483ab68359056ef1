-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact rational numbers and text primitives.                             *)
(*                                                                         *)
(* TLC integers are 32 bit, so a rational is carried as a string in        *)
(* canonical form: "n" for an integer, "n/d" with d > 1 and gcd(n, d) = 1  *)
(* otherwise (equality of values is equality of strings).  Recorded        *)
(* doubles arrive as "m:e", which stands for m * 2^e exactly; RParse       *)
(* brings any of the forms "n", "n/d", "m:e" or a decimal literal into     *)
(* canonical form.  "NaN", "inf" and "-inf" are the only non-numbers.      *)
(*                                                                         *)
(* The operators are executed by Num.java (BigInteger / BigDecimal): the   *)
(* right-hand sides below only document them.  RSqrt, RLog2, RAtan and     *)
(* RPi are rational approximations with relative error below 10^-70, and   *)
(* RRnd rounds to 80 significant digits to bound the growth of numbers;    *)
(* everything else is exact.  ASSUMEs in NumTest.tla check the override.   *)
(* Arithmetic on a non-number, a division by zero and the square root of   *)
(* a negative number give "NaN"; RLe, RLt and RClose are FALSE and RCmp is *)
(* 2 (0 if both are the same) when a non-number takes part.                *)
(***************************************************************************)
EXTENDS Integers, Sequences

Override == CHOOSE x : FALSE     \* never evaluated: replaced by Num.java

RInt(i)      == Override   \* the rational i
RParse(s)    == Override   \* canonical form of a recorded number
IsFin(s)     == Override   \* s is a number (not NaN, inf, -inf)
IsNum(s)     == Override   \* s is the canonical form or another readable form
RToInt(a)    == Override   \* the integer a, when it fits in 31 bits
RFits(a)     == Override   \* a is an integer and fits in 31 bits
RFloor(a)    == Override   \* greatest integer not above a
RIsInt(a)    == Override   \* a is an integer
RAdd(a, b)   == Override
RSub(a, b)   == Override
RMul(a, b)   == Override
RDiv(a, b)   == Override
RNeg(a)      == Override
RAbs(a)      == Override
RMax(a, b)   == Override
RMin(a, b)   == Override
RCmp(a, b)   == Override   \* -1, 0, 1
RLe(a, b)    == Override
RLt(a, b)    == Override
RSum(s)      == Override   \* sum of a sequence of rationals
RSumSq(s)    == Override   \* sum of squares
\* from a sequence of <<key, weight>>: the same, every key once with the sum of its weights
RTally(s)    == Override
\* the function of a sequence of <<key, value>> (the first of equal keys), and the function
\* key -> (key -> value) of a sequence of <<key, key, value>>; keys are strings
FunOf(s)     == Override
Fun2Of(s)    == Override
\* a sequence of strings in ascending order: as numbers, or by code point
SortStr(s, numeric) == Override
RMaxAbs(s)   == Override   \* largest absolute value in a sequence ("0" if empty)
RPow2(a)     == Override   \* 2^a for an integer a (rational as string)
RIPow(a, n)  == Override   \* a^n, n a TLC integer >= 0
RRnd(a)      == Override
RSqrt(a)     == Override
RLog2(a)     == Override
RAtan(a)     == Override
RPi          == Override
RNearest(a)  == Override   \* the double nearest to a (ties to even) as a rational, or "inf"/"-inf"
\* |a - b| <= abs + rel * max(|a|, |b|)
RClose(a, b, rel, abs) == Override

Chars(s)     == Override   \* sequence of Unicode code points of a string
StrOf(cs)    == Override   \* string of a sequence of code points
StrCmp(s, t) == Override   \* lexicographic comparison by code point: -1, 0, 1
=============================================================================
