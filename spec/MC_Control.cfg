SPECIFICATION MCSpec
CONSTANTS
  CheckText = TRUE
  Layers = 2
  Calls = 1
  Samples = 2
  Epochs = 1
INVARIANTS NeverStuck InOrder LossOnce Finished PredictOnly Composed
PROPERTIES Stable Ends
CHECK_DEADLOCK FALSE
