INIT MCInit
NEXT MCNext
CONSTANTS
  MaxN = 20
  MaxBatch = 22
INVARIANTS Batches Relation Statistics
CHECK_DEADLOCK FALSE
