----------------------------- MODULE TraceNet -----------------------------
(* Checks a recorded execution against NetStore; see TraceStore. *)
EXTENDS NetStore, Parallel, Json, IOUtils
VARIABLE l
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

TraceInit == NetInit /\ l = 1 /\ TLCSet(1, 0)
Reset(e) == nets' = <<>> /\ ty' = e.ty
Step(e) == IF e.op = "reset" THEN Reset(e) ELSE IF e.op = "par" THEN RegionOk(e) /\ UNCHANGED netVars ELSE NetStep(e)
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1 /\ TLCSet(1, l)
Verdict == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
