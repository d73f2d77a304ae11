INIT Init
NEXT Next
CONSTANTS
  MaxRank = 3
  Small = 3
  PairRank = 3
INVARIANTS OffsetBijection ReshapeKeeps BroadcastRule Elementwise Reductions Variance Transposes Slices Views Products
CHECK_DEADLOCK FALSE
