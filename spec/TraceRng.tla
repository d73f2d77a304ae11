-------------------------------- MODULE TraceRng --------------------------------
(* Checks a recorded execution against RngStore; see TraceStore. *)
EXTENDS RngStore, Parallel, Json, IOUtils
VARIABLE l
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

TraceInit == RngInit /\ l = 1 /\ TLCSet(1, 0)
Reset(e) == cur' = [seed |-> "none", hist |-> <<>>] /\ memo' = <<>> /\ ds' = <<>> /\ ty' = e.ty
Step(e) == IF e.op = "reset" THEN Reset(e) ELSE IF e.op = "par" THEN RegionOk(e) /\ UNCHANGED rngVars ELSE RngStep(e)
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1 /\ TLCSet(1, l)
Verdict == PrintT(<<"MATCHED", TLCGet(1), Len(Trace)>>)
=============================================================================
