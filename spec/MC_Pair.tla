------------------------------ MODULE MC_Pair ------------------------------
(***************************************************************************)
(* All lists of up to Maps score maps over few queries (C10).              *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS Maps, Queries, IdTypes

VARIABLES kt, maps, told
mvars == <<bld, sto, evs, mem, kt, maps, told>>

Sets == { a \in Arrangements(FirstIds(kt, Queries), Queries) : \/ Len(a) <= 1
            \/ (\A i \in 1..(Len(a) - 1) : KLess(kt, a[i], a[i + 1])) \/ (\A i \in 1..(Len(a) - 1) : KLess(kt, a[i + 1], a[i])) }
MInit == LInit /\ kt \in IdTypes /\ maps = <<>> /\ told = FALSE
AddMap == /\ Len(maps) < Maps
          /\ \E a \in Sets : maps' = Append(maps, [i \in DOMAIN a |-> <<a[i], RInt(10 * Len(maps) + (CHOOSE n \in 1..5 : Ids(kt)[n] = a[i]))>>])
          /\ UNCHANGED <<lvars, kt, told>>
Tell == /\ told' = TRUE /\ UNCHANGED <<lvars, kt, maps>>
        /\ Emit(kt, << [op |-> "tuples", maps |-> maps] >> \o (IF Len(maps) = 2 THEN << [op |-> "pairs", maps |-> maps] >> ELSE <<>>))
MNext == ~told /\ (AddMap \/ Tell)

Fs == [j \in DOMAIN maps |-> NumFun(maps[j])]
Alike == Len(maps) > 0 /\ \A j \in DOMAIN maps : DOMAIN Fs[j] = DOMAIN Fs[1]
\* a row per query, ascending; column j is map j
Rows == Alike => LET X == Paired(kt, Fs)
                 IN  /\ Len(X) = Cardinality(DOMAIN Fs[1])
                     /\ \A j \in DOMAIN maps : { X[i][j] : i \in DOMAIN X } = { Fs[j][q] : q \in DOMAIN Fs[j] }
                     /\ \A i \in DOMAIN X : \E q \in DOMAIN Fs[1] : \A j \in DOMAIN maps : X[i][j] = Fs[j][q]
=============================================================================
