CONSTANTS
  Steps = 4
  MinSteps = 4
  MinKeys = 0
  MaxKeys = 3
  MaxPieces = 1
  MaxText = 1
  Kinds = {"control"}
  Cats = {"source","markup","config","dsl"}
  Letters = {"p"}
  Looks = {"red","bold"}
  Gaps = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
