------------------------------- MODULE TraceOpt -------------------------------
(* Checks a recorded execution against OptStore; see TraceStore. *)
EXTENDS OptStore, Parallel, Json, IOUtils
VARIABLE l
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

TraceInit == OptInit /\ l = 1 /\ TLCSet(1, 0)
Reset(e) == os' = <<>> /\ ps' = <<>> /\ ty' = e.ty
Step(e) == IF e.op = "reset" THEN Reset(e) ELSE IF e.op = "par" THEN RegionOk(e) /\ UNCHANGED optVars ELSE OptStep(e)
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1 /\ TLCSet(1, l)
Verdict == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
