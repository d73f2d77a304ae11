INIT MCInit
NEXT MCNext
CONSTANTS
  Kind = "alias"
  Depth = 4
  Small = 2
INVARIANTS TypeOK Total InPlace
PROPERTIES Isolation Rejected
VIEW StoreView
CHECK_DEADLOCK FALSE
