------------------------------ MODULE MC_Trec ------------------------------
(***************************************************************************)
(* Lines of TREC files (C09), built token by token; every line is read     *)
(* alone, between others, and twice.                                       *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS Columns2,    \* at most so many tokens
          Words        \* the tokens

VARIABLES toks, gap, pad, told
mvars == <<bld, sto, evs, mem, toks, gap, pad, told>>

Gaps == { <<32>>, <<9>>, <<32, 32>>, <<160>>, <<9, 32>> }
MInit == LInit /\ toks = <<>> /\ gap \in Gaps /\ pad \in { <<>>, <<32>>, <<13>> } /\ told = FALSE
Token == Len(toks) < Columns2 /\ \E w \in Words : toks' = Append(toks, w) /\ UNCHANGED <<lvars, gap, pad, told>>
Line == StrOf(pad \o FlattenSeq([i \in DOMAIN toks |-> Chars(toks[i]) \o gap]) \o pad)
Good == "z 0 z 2 1 z"
Read(kind, lines, as) == [op |-> "trec", kind |-> kind, lines |-> lines, as |-> as]
Script == << Read("true", <<Line>>, "a"), Read("pred", <<Line>>, "b"), Read("true", <<Good, Line, "y 0 z 1 3">>, "c"),
             Read("pred", <<Good, Line>>, "d"), Read("pred", <<Line, Good, Line>>, "e") >>
Tell == Emit("str", Script) /\ told' = TRUE /\ UNCHANGED <<lvars, toks, gap, pad>>
MNext == ~told /\ (Token \/ Tell)

SplitRight == Tokens(Line) = toks
GapsDoNotMatter == \A k \in {"true", "pred"} : ReadLine(k, Line) = ReadLine(k, StrOf(FlattenSeq([i \in DOMAIN toks |-> Chars(toks[i]) \o <<32>>])))
ExtraColumnsDoNotMatter == \A k \in {"true", "pred"} : ReadLine(k, Line).ok => ReadLine(k, Line \o " more") = ReadLine(k, Line)
=============================================================================
