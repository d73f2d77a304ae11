------------------------------- MODULE TraceData -------------------------------
(* Checks a recorded execution against DataStore; see TraceStore. *)
EXTENDS DataStore, Json, IOUtils
VARIABLE l
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

TraceInit == DataInit /\ l = 1 /\ TLCSet(1, 0)
Reset(e) == fs' = <<>> /\ lds' = <<>> /\ ty' = e.ty
Step(e) == IF e.op = "reset" THEN Reset(e) ELSE DataStep(e)
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1 /\ TLCSet(1, l)
Verdict == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
