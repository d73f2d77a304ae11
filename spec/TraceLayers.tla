----------------------------- MODULE TraceLayers -----------------------------
(* Checks a recorded execution against LayerStore; see TraceStore. *)
EXTENDS LayerStore, Parallel, Json, IOUtils
VARIABLE l
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

TraceInit == LayerInit /\ l = 1 /\ TLCSet(1, 0)
Reset(e) == ls' = <<>> /\ ty' = e.ty
Step(e) == IF e.op = "reset" THEN Reset(e) ELSE IF e.op = "par" THEN RegionOk(e) /\ UNCHANGED layerVars ELSE LayerStep(e)
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1 /\ TLCSet(1, l)
Verdict == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
