----------------------------- MODULE TraceTap -----------------------------
(* Checks a recorded execution against TapStore; see TraceStore. *)
EXTENDS TapStore, Parallel, Json, IOUtils
VARIABLE l
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

TraceInit == TapInit /\ l = 1 /\ TLCSet(1, 0)
Reset(e) == pc = C!Idle /\ ms' = <<>> /\ pc' = C!Idle /\ tl' = <<>> /\ tf' = <<>> /\ to' = <<>> /\ wild' = {} /\ ty' = e.ty
Step(e) == IF e.op = "reset" THEN Reset(e) ELSE IF e.op = "par" THEN RegionOk(e) /\ UNCHANGED tapVars ELSE TapStep(e)
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1 /\ TLCSet(1, l)
Verdict == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
