-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Bounded models write the behaviours they explore as scripts of library  *)
(* calls, one JSON object per line; the harness executes them against the  *)
(* code, and Trace decides what it answered.                               *)
(***************************************************************************)
EXTENDS Elinor, Json, CSV, IOUtils

Emit(kt, ev) == CSVWrite("%1$s", <<ToJson([kt |-> kt, ev |-> ev])>>, IOEnv.OUT)

\* ids whose order as text differs from their order as numbers
Ids(kt) == CASE kt \in {"str", "rev"} -> <<"10", "9", "a", "A", "1">>
             [] kt = "char" -> <<"b", "B", "1", "a", "z">>
             [] kt = "u64"  -> <<"10", "9", "2", "18446744073709551615", "1">>
             [] kt = "i32"  -> <<"-1", "-10", "2", "10", "-2147483648">>
FirstIds(kt, n) == { Ids(kt)[i] : i \in 1..n }

\* the injective sequences over S of length at most n
RECURSIVE Arrangements(_, _)
Arrangements(S, n) == IF n = 0 THEN { <<>> }
                      ELSE { <<>> } \cup UNION { { <<x>> \o a : a \in Arrangements(S \ {x}, n - 1) } : x \in S }
PermutationsOf(S) == { a \in Arrangements(S, Cardinality(S)) : Len(a) = Cardinality(S) }
=============================================================================
