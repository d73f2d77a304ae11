INIT MCInit
NEXT MCNext
CONSTANTS
  Kind = "fc"
  Config = 1
  Depth = 3
INVARIANTS Total Latest Derivative Running
PROPERTIES Isolation EvalPure Rejected
VIEW LayerView
CHECK_DEADLOCK FALSE
