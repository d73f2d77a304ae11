------------------------------ MODULE TraceStore ------------------------------
(***************************************************************************)
(* Checks a recorded execution against TensorStore.  The trace is a        *)
(* sequence of events; "reset" starts a new program with an empty store.   *)
(* The behaviour gets stuck at the first event the specification does not  *)
(* allow; the postcondition prints how far it got.                         *)
(***************************************************************************)
EXTENDS TensorStore, Parallel, Json, IOUtils
VARIABLE l
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

TraceInit == StoreInit /\ l = 1 /\ TLCSet(1, 0)
Reset(e) == ts' = <<>> /\ ty' = e.ty
Step(e) == IF e.op = "reset" THEN Reset(e) ELSE IF e.op = "par" THEN RegionOk(e) /\ UNCHANGED storeVars ELSE StoreStep(e)
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1 /\ TLCSet(1, l)
Verdict == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
