INIT MCInit
NEXT MCNext
CONSTANTS
  Focus = "good"
  MaxCount = 3
  MaxBatch = 4
INVARIANTS Total Whole OneHot Accepts Refuses
CHECK_DEADLOCK FALSE
