----------------------------- MODULE MC_Random -----------------------------
(***************************************************************************)
(* All short sequences of settings of the randomized testers (C16): the    *)
(* last of a kind counts; runs with the same effective settings agree.     *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS Settings, Numbers, Seeds

VARIABLES sets, told
mvars == <<bld, sto, evs, mem, sets, told>>

MInit == LInit /\ sets = <<>> /\ told = FALSE
Set == /\ Len(sets) < Settings
       /\ \E x \in { <<"n", v>> : v \in Numbers } \cup { <<"seed", v>> : v \in Seeds } : sets' = Append(sets, x)
       /\ UNCHANGED <<lvars, told>>
Prs == << <<"3", "1">>, <<"2", "2">>, <<"1:-1", "0">> >>
Tab == << <<"1", "0", "3">>, <<"2", "2", "1:-1">>, <<"0", "4", "1">> >>
\* the same run in canonical order, when a seed is set
Canonical2 == << <<"seed", EffSeed(sets)>>, <<"n", EffN(sets)>> >>
B(s) == [op |-> "boot", x |-> Prs, sets |-> s, via |-> "new"]
R(s) == [op |-> "rtukey", x |-> Tab, m |-> 3, sets |-> s, via |-> "new"]
Script == << B(sets), R(sets), B(sets), R(sets) >>
          \o (IF EffSeed(sets) = "" THEN <<>> ELSE << B(Canonical2), R(Canonical2), B(<< <<"n", "97">> >> \o Canonical2), R(<< <<"seed", "5">> >> \o Canonical2) >>)
Tell == Emit("str", Script) /\ told' = TRUE /\ UNCHANGED <<lvars, sets>>
MNext == ~told /\ (Set \/ Tell)

Positive == RLe("1", EffN(sets))
Effective == EffSeed(sets) # "" => EffN(Canonical2) = EffN(sets) /\ EffSeed(Canonical2) = EffSeed(sets)
=============================================================================
