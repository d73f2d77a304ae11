INIT Init
NEXT Next
CONSTANTS
  Kind = "fc"
  Small = 2
INVARIANTS Gradient
CHECK_DEADLOCK FALSE
