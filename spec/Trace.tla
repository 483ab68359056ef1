------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Is every recorded history a behaviour of Elinor?  The log holds one     *)
(* segment per line: [seg, kt, ev], ev being the calls and their results.  *)
(* TLC starts one behaviour per segment and must consume all its events;   *)
(* a call whose result the specification forbids leaves no successor, and  *)
(* TLC reports the deadlock with segment, position and event.              *)
(***************************************************************************)
EXTENDS Elinor, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_LOG)

VARIABLES s,  \* segment
          l   \* position of the next event
tvars == <<s, l, bld, sto, evs, mem>>

Ev == Log[s].ev[l]

TInit == s \in 1..Len(Log) /\ l = 1 /\ LInit

Apply(kt, e) ==
  CASE e.op = "new"    -> NewBuilder(e.b, e.kind)
    [] e.op = "add"    -> AddRecord(e.b, e.q, e.d, e.s, e.r)
    [] e.op = "build"  -> Build(kt, e.b, e.as, e.r)
    [] e.op = "from"   -> FromRecords(kt, e.kind, e.recs, e.as, e.r)
    [] e.op = "copy"   -> Copy(kt, e.s, e.as, e.r)
    [] e.op = "dump"   -> Describe(kt, e.s, e.r)
    [] e.op = "into"   -> IntoRecords(e.s, e.r)
    [] e.op = "get"    -> GetScore(e.s, e.q, e.d, e.r)
    [] e.op = "eval"   -> Evaluate(e.t, e.p, e.m, e.k, e.as, e.r)
    [] e.op = "mparse" -> ParseName(e.text, e.r)
    [] e.op = "mprint" -> PrintName(e.m, e.k, e.r)
    [] e.op = "trec"   -> ReadTrec(kt, e.kind, e.lines, e.as, e.r)
    [] e.op = "jser"   -> WriteJson(e.kind, e.q, e.d, e.s, e.r)
    [] e.op = "jde"    -> ReadJson(e.kind, e.fields, e.r)
    [] e.op \in {"pairs", "tuples"} -> Pair(kt, e.maps, e.r)
    [] e.op = "ttest"  -> TTest(e.x, e.r)
    [] e.op = "anova"  -> Anova(e.x, e.m, e.r)
    [] e.op = "tukey"  -> Tukey(e.x, e.m, e.r)
    [] e.op = "boot"   -> Bootstrap(e.x, e.sets, e.r)
    [] e.op = "rtukey" -> RTukey(e.x, e.m, e.sets, e.r)

\* A call that panics, aborts or never returns has no answer: it breaks every property that it serves.
Serves(e) ==
  CASE e.op \in {"new", "add", "build", "from", "copy", "dump"} -> {"C01", "C02"}
    [] e.op \in {"into", "get"}      -> {"C01"}
    [] e.op = "eval"                 -> {PropOf(e.m), "C02", "C06", "C07"}
    [] e.op \in {"mparse", "mprint"} -> {"C08"}
    [] e.op = "trec"                 -> {"C09"}
    [] e.op \in {"jser", "jde"}      -> {"C22"}
    [] e.op \in {"pairs", "tuples"}  -> {"C10"}
    [] e.op = "ttest"                -> {"C11", "C17"}
    [] e.op = "anova"                -> {"C13", "C17"}
    [] e.op = "tukey"                -> {"C14", "C17"}
    [] e.op = "boot"                 -> {"C12", "C16", "C17"}
    [] e.op = "rtukey"               -> {"C15", "C16", "C17"}
Answered(e) == \/ e.r.st \notin {"panic", "abort", "hang"}
               \/ Serves(e) \cap Focus = {}
               \/ e.r.st = "panic" /\ e.op \in {"anova", "tukey"} /\ "panic" \in AKnown(e.x, e.m)   \* a known finding

Consume == /\ l <= Len(Log[s].ev)
           /\ Answered(Ev)
           /\ Apply(Log[s].kt, Ev)
           /\ l' = l + 1 /\ UNCHANGED s
Done    == l > Len(Log[s].ev) /\ UNCHANGED tvars
TNext   == Consume \/ Done

\* printed with a rejected history
Where == [line |-> s, position |-> l]
=============================================================================
