------------------------------ MODULE TraceModel ------------------------------
(* Checks a recorded execution against Control; see TraceStore. *)
EXTENDS Control, Json, IOUtils
VARIABLE l
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

TraceInit == CtlInit /\ l = 1 /\ TLCSet(1, 0)
Reset(e) == ms' = <<>> /\ pc' = Idle
Step(e) == IF e.op = "reset" THEN pc = Idle /\ Reset(e) ELSE CtlStep(e)
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1 /\ TLCSet(1, l)
Verdict == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
