----------------------------- MODULE CliTrace -----------------------------
(***************************************************************************)
(* Is every recorded history of tool runs a behaviour of Cli?  (See Trace.)*)
(***************************************************************************)
EXTENDS Cli, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_LOG)

VARIABLES s, l
tvars == <<s, l, fs, full, seen>>

Ev == Log[s].ev[l]
TInit == s \in 1..Len(Log) /\ l = 1 /\ CInit
Apply(e) ==
  CASE e.op = "put"      -> PutFile(e.path, e.c)
    [] e.op = "convert"  -> Convert(e)
    [] e.op = "evaluate" -> Evaluate(e)
    [] e.op = "compare"  -> Compare(e)
Consume == /\ l <= Len(Log[s].ev)
           /\ Apply(Ev)
           /\ l' = l + 1 /\ UNCHANGED s
Done    == l > Len(Log[s].ev) /\ UNCHANGED tvars
TNext   == Consume \/ Done
Where == [line |-> s, position |-> l]
=============================================================================
