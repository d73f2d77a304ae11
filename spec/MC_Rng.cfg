INIT MCInit
NEXT MCNext
CONSTANTS
  Gen = "stream"
  Depth = 5
INVARIANTS Accepted
PROPERTIES Remembers
CHECK_DEADLOCK FALSE
