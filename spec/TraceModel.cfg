INIT TraceInit
NEXT TraceNext
CONSTANTS
  CheckText = FALSE
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
