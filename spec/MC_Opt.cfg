INIT MCInit
NEXT MCNext
CONSTANTS
  Kind = "adam"
  Config = 2
  Depth = 3
INVARIANTS Total ClosedForm Positive Grouping
PROPERTIES Isolation
VIEW OptView
CHECK_DEADLOCK FALSE
