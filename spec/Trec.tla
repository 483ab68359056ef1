------------------------------- MODULE Trec -------------------------------
(***************************************************************************)
(* TREC text (C09), at the level of characters: columns are maximal runs   *)
(* of non-white-space; qrels scores are 32-bit integers clamped at 0, run  *)
(* scores decimal numbers read as the nearest double.                      *)
(***************************************************************************)
EXTENDS MetricName

\* Unicode White_Space
IsWs(c) == c \in (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202) \cup {8232, 8233, 8239, 8287, 12288}

Tokens(s) ==
  LET cs == Append(Chars(s), 32)
      f == FoldLeft(LAMBDA a, c : IF ~IsWs(c) THEN <<a[1], Append(a[2], c)>>
                                  ELSE IF a[2] = <<>> THEN a
                                  ELSE <<Append(a[1], StrOf(a[2])), <<>> >>,
                    << <<>>, <<>> >>, cs)
  IN  f[1]

Unsigned(cs) == IF cs # <<>> /\ cs[1] \in {43, 45} THEN SubSeq(cs, 2, Len(cs)) ELSE cs
Negated(cs)  == cs # <<>> /\ cs[1] = 45
Unreadable   == [ok |-> FALSE]

\* [+-]digits within 32 bits, negative ones read as 0
TrueScore(s) ==
  LET cs == Chars(s)
      dg == Unsigned(cs)
  IN  IF ~AllDigits(dg) THEN Unreadable
      ELSE LET n == IF Negated(cs) THEN RNeg(Decimal(dg)) ELSE Decimal(dg)
           IN  IF RLe(RNeg(RPow2("31")), n) /\ RLt(n, RPow2("31"))
               THEN [ok |-> TRUE, v |-> RMax(n, "0")]
               ELSE Unreadable

\* [+-](inf | infinity) in letters of either case, and
\* [+-](digits[.[digits]] | .digits)[(e|E)[+-]digits]
Small(cs) == [i \in DOMAIN cs |-> IF cs[i] \in 65..90 THEN cs[i] + 32 ELSE cs[i]]
Endless   == { Chars("inf"), Chars("infinity") }
PredScore(s) ==
  LET cs  == Unsigned(Chars(s))
      es  == { i \in DOMAIN cs : cs[i] \in {69, 101} }
      e   == IF es = {} THEN Len(cs) + 1 ELSE CHOOSE i \in es : \A j \in es : i <= j
      man == SubSeq(cs, 1, e - 1)
      exq == SubSeq(cs, e + 1, Len(cs))
      dot == { i \in DOMAIN man : man[i] = 46 }
      d   == IF dot = {} THEN Len(man) + 1 ELSE CHOOSE i \in dot : \A j \in dot : i <= j
      ip  == SubSeq(man, 1, d - 1)
      fp  == SubSeq(man, d + 1, Len(man))
      okm == ip \o fp # <<>> /\ AllDigits(ip \o fp)
      oke == es = {} \/ AllDigits(Unsigned(exq))
  IN  IF Small(cs) \in Endless THEN [ok |-> TRUE, v |-> IF Negated(Chars(s)) THEN "-inf" ELSE "inf"]
      ELSE IF ~okm \/ ~oke THEN Unreadable
      ELSE [ok |-> TRUE,
            v  |-> RNearest(StrOf((IF Negated(Chars(s)) THEN <<45>> ELSE <<>>)
                                  \o (IF ip = <<>> THEN <<48>> ELSE ip) \o <<46>>
                                  \o (IF fp = <<>> THEN <<48>> ELSE fp)
                                  \o (IF es = {} THEN <<>> ELSE <<101>> \o exq)))]

Columns(kind) == IF kind = "true" THEN 4 ELSE 5
ReadLine(kind, s) ==
  LET t == Tokens(s)
  IN  IF Len(t) < Columns(kind) THEN Unreadable
      ELSE LET x == IF kind = "true" THEN TrueScore(t[4]) ELSE PredScore(t[5])
           IN  IF x.ok THEN [ok |-> TRUE, rec |-> <<t[1], t[3], x.v>>] ELSE Unreadable

ReadFile(kind, lines) == [i \in DOMAIN lines |-> ReadLine(kind, lines[i])]
GoodRecs(rs) == LET g == SelectSeq(rs, LAMBDA x : x.ok) IN [i \in DOMAIN g |-> g[i].rec]
\* The failures that a file calls for: {} when it must be accepted.
FileErrors(rs) == (IF \E i \in DOMAIN rs : ~rs[i].ok THEN {"InvalidFormat"} ELSE {})
                  \cup (IF HasDup(GoodRecs(rs)) THEN {"DuplicateEntry"} ELSE {})
=============================================================================
