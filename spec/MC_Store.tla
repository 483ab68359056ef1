----------------------------- MODULE MC_Store -----------------------------
(***************************************************************************)
(* All histories of a builder with up to Adds insertions (C01).  Every     *)
(* state is finished in every way: built, imported in bulk, exported and   *)
(* imported again, consumed.                                               *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS Adds, Queries, Documents, IdTypes

VARIABLES kt, kind, calls
mvars == <<bld, sto, evs, mem, kt, kind, calls>>

Values == IF kind = "true" THEN {"0", "2"} ELSE {"-1", "1:-1"}

MInit == /\ kt \in IdTypes /\ kind \in {"true", "pred"} /\ calls = <<>>
         /\ bld = "b" :> [kind |-> kind, map |-> EmptyStore] /\ sto = <<>> /\ evs = <<>> /\ mem = {}

Insert == /\ Len(calls) < Adds
          /\ \E q \in FirstIds(kt, Queries), d \in FirstIds(kt, Documents), x \in Values, st \in {"ok", "DuplicateEntry"} :
               /\ AddRecord("b", q, d, x, [st |-> st])
               /\ calls' = Append(calls, <<q, d, x>>)
          /\ UNCHANGED <<kt, kind>>

Finished ==
  << [op |-> "new", b |-> "b", kind |-> kind] >>
  \o [i \in DOMAIN calls |-> [op |-> "add", b |-> "b", q |-> calls[i][1], d |-> calls[i][2], s |-> calls[i][3]]]
  \o << [op |-> "build", b |-> "b", as |-> "s"],
        [op |-> "from", kind |-> kind, recs |-> calls, as |-> "f"],
        [op |-> "copy", s |-> "s", via |-> "bulk", as |-> "u"],
        [op |-> "copy", s |-> "u", via |-> "builder", as |-> "v"] >>
  \o [i \in DOMAIN calls |-> [op |-> "get", s |-> "v", q |-> calls[i][1], d |-> calls[i][2]]]
  \o << [op |-> "get", s |-> "s", q |-> Ids(kt)[1], d |-> Ids(kt)[Documents]],
        [op |-> "dump", s |-> "f"], [op |-> "into", s |-> "s"], [op |-> "into", s |-> "f"] >>
Finish == /\ "b" \in DOMAIN bld
          /\ bld' = Drop(bld, "b")
          /\ Emit(kt, Finished)
          /\ UNCHANGED <<sto, evs, mem, kt, kind, calls>>
MNext == Insert \/ Finish

-----------------------------------------------------------------------------
Map == bld["b"].map
Growing == "b" \in DOMAIN bld
\* what was accepted: the first record of every pair
FirstOnes == { calls[i] : i \in { i \in DOMAIN calls : \A j \in 1..(i - 1) : <<calls[j][1], calls[j][2]>> # <<calls[i][1], calls[i][2]>> } }
HoldsFirstOnes == Growing => Triples(Map) = { <<r[1], r[2], RParse(r[3])>> : r \in FirstOnes }
BulkAgrees == (Growing /\ ~HasDup(calls)) => FromRecs(NumRecs(calls)) = Map
Counted == Growing => NDocs(Map) = Cardinality(PairsOf(calls)) /\ NQueries(Map) = Cardinality({ calls[i][1] : i \in DOMAIN calls })
ExportImport == Growing => FromRecs(SetToSeq(Triples(Map))) = Map
=============================================================================
