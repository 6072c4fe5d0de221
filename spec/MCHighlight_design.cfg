CONSTANTS
  Steps = 4
  MinSteps = 0
  MinKeys = 0
  MaxKeys = 2
  MaxPieces = 2
  MaxText = 2
  Kinds = {"control","arrow"}
  Cats = {"source"}
  Letters = {"p","lt"}
  Looks = {"red","plain"}
  Gaps = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Covers Readable WellNested Escaped Exact InTheme
