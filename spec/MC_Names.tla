----------------------------- MODULE MC_Names -----------------------------
(***************************************************************************)
(* Texts around metric names (C08): every documented name, with and        *)
(* without cutoff, after up to Edits edits of one character.               *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS Edits, Tails, Alphabet

VARIABLES text, edits, told
mvars == <<bld, sto, evs, mem, text, edits, told>>

Letters == { Chars(Alphabet)[i] : i \in DOMAIN Chars(Alphabet) }
MInit == LInit /\ text \in { m \o x : m \in MetricNames, x \in Tails } /\ edits = 0 /\ told = FALSE
Cs == Chars(text)
Edited == { SubSeq(Cs, 1, i - 1) \o SubSeq(Cs, i + 1, Len(Cs)) : i \in DOMAIN Cs }
          \cup { SubSeq(Cs, 1, i - 1) \o <<c>> \o SubSeq(Cs, i, Len(Cs)) : i \in 1..(Len(Cs) + 1), c \in Letters }
          \cup { [Cs EXCEPT ![i] = c] : i \in DOMAIN Cs, c \in Letters }
Edit == edits < Edits /\ \E x \in Edited : text' = StrOf(x) /\ edits' = edits + 1 /\ UNCHANGED <<lvars, told>>
Tell == told' = TRUE /\ UNCHANGED <<lvars, text, edits>>
        /\ LET p == ParseMetric(text)
           IN  Emit("str", << [op |-> "mparse", text |-> text] >> \o (IF p.ok THEN << [op |-> "mprint", m |-> p.m, k |-> p.k] >> ELSE <<>>))
MNext == ~told /\ (Edit \/ Tell)

RoundTrip == LET p == ParseMetric(text)
             IN  p.ok => /\ p.m \in MetricNames /\ RLe("0", p.k) /\ RLt(p.k, RPow2("64"))
                         /\ ParseMetric(PrintMetric(p.m, p.k)) = p
                         /\ (p.m \in NoCutoff => PrintMetric(p.m, p.k) = p.m)
\* accepted texts are a name, or a name, '@' and digits
Shape == ParseMetric(text).ok <=>
           \E m \in MetricNames : \/ text = m
                                  \/ /\ Len(Cs) > Len(Chars(m)) + 1
                                     /\ SubSeq(Cs, 1, Len(Chars(m)) + 1) = Chars(m \o "@")
                                     /\ \A i \in (Len(Chars(m)) + 2)..Len(Cs) : Cs[i] \in 48..57
                                     /\ RLt(RParse(StrOf(SubSeq(Cs, Len(Chars(m)) + 2, Len(Cs)))), RPow2("64"))
=============================================================================
