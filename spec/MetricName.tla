---------------------------- MODULE MetricName ----------------------------
(***************************************************************************)
(* The textual form of metrics (C08), at the level of characters: a        *)
(* documented name, optionally '@' and a decimal cutoff below 2^64.        *)
(***************************************************************************)
EXTENDS Metrics

AtSign   == 64
Digit(c) == c \in 48..57
MaxWord  == RSub(RPow2("64"), "1")

\* value of a non-empty sequence of digits, as a rational
Decimal(cs) == FoldLeft(LAMBDA a, c : RAdd(RMul(a, "10"), RInt(c - 48)), "0", cs)
AllDigits(cs) == Len(cs) > 0 /\ \A i \in DOMAIN cs : Digit(cs[i])

Reject == [ok |-> FALSE]
ParseMetric(s) ==
  LET cs == Chars(s)
      at == { i \in DOMAIN cs : cs[i] = AtSign }
  IN  IF at = {} THEN (IF s \in MetricNames THEN [ok |-> TRUE, m |-> s, k |-> "0"] ELSE Reject)
      ELSE IF Cardinality(at) > 1 THEN Reject
      ELSE LET i    == CHOOSE j \in at : TRUE
               name == StrOf(SubSeq(cs, 1, i - 1))
               dig  == SubSeq(cs, i + 1, Len(cs))
           IN  IF name \notin MetricNames \/ ~AllDigits(dig) THEN Reject
               ELSE LET k == Decimal(dig)
                    IN  IF RLe(k, MaxWord)
                        THEN [ok |-> TRUE, m |-> name, k |-> IF name \in NoCutoff THEN "0" ELSE k]
                        ELSE Reject

PrintMetric(m, k) == IF k = "0" \/ m \in NoCutoff THEN m ELSE m \o "@" \o k
=============================================================================
