CONSTANTS
  Steps = 3
  MinSteps = 3
  MinKeys = 0
  MaxKeys = 1
  MaxPieces = 2
  MaxText = 1
  Kinds = {"keyword","number"}
  Cats = {"source","config"}
  Letters = {"p","quot"}
  Looks = {"all"}
  Gaps = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
