----------------------------- MODULE MC_Convert -----------------------------
(***************************************************************************)
(* elinor-convert (C19) on all files of up to Lines lines out of Some.     *)
(***************************************************************************)
EXTENDS Cli, Json, CSV, IOUtils

CONSTANTS Lines, More

VARIABLES kind, text, told
mvars == <<fs, full, seen, kind, text, told>>

Tab == StrOf(<<9>>)
Candidates == IF kind = "true"
              THEN {"q 0 d 1", "q 0 e 0", "r" \o Tab \o "0  d -1", " q 0 E 2 x", "Q 0 d 1", "q 0 d"} \cup IF More THEN {"q 0 d 2", "", "q10 0 d 2147483647"} ELSE {}
              ELSE {"q Q0 d 1 0.5 t", "q Q0 e 2 0.5", "r" \o Tab \o "Q0  d 1 -1e1 t", " q Q0 E 9 1e300 t", "Q Q0 d 1 0.1 t", "q Q0 d 1"}
                   \cup IF More THEN {"q Q0 d 1 0.25 t", "", "q10 Q0 d 1 3 t"} ELSE {}
MInit == fs = <<>> /\ full = <<>> /\ seen = <<>> /\ kind \in {"true", "pred"} /\ text = <<>> /\ told = FALSE
Add == Len(text) < Lines /\ \E l \in Candidates : text' = Append(text, l) /\ UNCHANGED <<fs, full, seen, kind, told>>
File1 == [t |-> "lines", lines |-> text]
Valid == TrecOk(File1, kind)
Run == [op |-> "convert", in |-> "t.trec", out |-> "o.jsonl", kind |-> kind, extra |-> "", fault |-> [kind |-> "none"], expect |-> IF Valid THEN "ok" ELSE "fail"]
Tell == /\ told' = TRUE
        /\ CSVWrite("%1$s", <<ToJson([files |-> << [path |-> "t.trec", c |-> File1] >>, run |-> Run])>>, IOEnv.OUT)
        /\ UNCHANGED <<fs, full, seen, kind, text>>
MNext == ~told /\ (Add \/ Tell)

-----------------------------------------------------------------------------
Backwards(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Out(ls) == Sorted(FromRecs(GoodRecs(ReadFile(kind, ls))))
\* the output has a record per line, by query and then by rank, whatever the order of the lines
Complete == Valid => Len(Out(text)) = Len(text)
LineOrder == Valid => Out(text) = Out(Backwards(text))
Ranked == Valid => LET o == Out(text)
                   IN  \A i \in 1..(Len(o) - 1) : \/ StrCmp(o[i][1], o[i + 1][1]) < 0
                                                  \/ /\ o[i][1] = o[i + 1][1]
                                                     /\ \/ RLt(o[i + 1][3], o[i][3])
                                                        \/ o[i][3] = o[i + 1][3] /\ StrCmp(o[i][2], o[i + 1][2]) < 0
\* what was written as TREC again is the same
Again == (Valid /\ kind = "true") => LET o == Out(text)
                                     IN  Out([i \in DOMAIN o |-> o[i][1] \o " 0 " \o o[i][2] \o " " \o o[i][3]]) = o
=============================================================================
