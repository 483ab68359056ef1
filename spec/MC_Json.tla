------------------------------ MODULE MC_Json ------------------------------
(***************************************************************************)
(* JSON objects with up to Fields fields of the names of a record (C22),   *)
(* each with any type of value; names are not repeated.                    *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS Fields, Wide4

VARIABLES fs, told
mvars == <<bld, sto, evs, mem, fs, told>>

\* <<type, value, text>>
Values == { <<"str", "x", StrOf(<<34, 120, 34>>)>>, <<"str", "3", StrOf(<<34, 51, 34>>)>>, <<"int", "3", "3">>, <<"int", "-1", "-1">>,
            <<"real", "0.5", "0.5">>, <<"null", "0", "null">>, <<"bool", "0", "true">> }
          \cup IF Wide4 THEN { <<"list", "0", "[1]">>, <<"int", "4294967296", "4294967296">>, <<"real", "3.0", "3.0">>, <<"str", "", StrOf(<<34, 34>>)>> }
              ELSE {}
MInit == LInit /\ fs = <<>> /\ told = FALSE
Add == /\ Len(fs) < Fields
       /\ \E n \in FieldNames \ { fs[i][1] : i \in DOMAIN fs } : \E v \in Values : fs' = Append(fs, <<n, v[1], v[2], v[3]>>)
       /\ UNCHANGED <<lvars, told>>
Quote == StrOf(<<34>>)
Join(s) == FoldLeft(LAMBDA a, i : a \o (IF i = 1 THEN "" ELSE ",") \o s[i], "", [i \in DOMAIN s |-> i])
Text == "{" \o Join([i \in DOMAIN fs |-> Quote \o fs[i][1] \o Quote \o ":" \o fs[i][4]]) \o "}"
Plain == [i \in DOMAIN fs |-> <<fs[i][1], fs[i][2], fs[i][3]>>]
Read(kind) == [op |-> "jde", kind |-> kind, text |-> Text, fields |-> Plain]
Tell == Emit("str", <<Read("true"), Read("pred")>>) /\ told' = TRUE /\ UNCHANGED <<lvars, fs>>
MNext == ~told /\ (Add \/ Tell)

NeedsAll == \A k \in {"true", "pred"} : ReadableRec(k, Plain) => Len(fs) >= 3
TrueIsPred == ReadableRec("true", Plain) => ReadableRec("pred", Plain)
OrderDoesNotMatter == \A k \in {"true", "pred"} : ReadableRec(k, Plain) = ReadableRec(k, [i \in DOMAIN fs |-> Plain[Len(fs) + 1 - i]])
=============================================================================
