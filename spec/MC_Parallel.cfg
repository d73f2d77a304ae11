INIT Init
NEXT Next
CONSTANTS
  Threads = 2
  Steps = 2
  Cells = 2
  Rule = "private"
INVARIANTS Same
CHECK_DEADLOCK FALSE
