CONSTANTS
  Letters = {"a", "1", ".", "q", "n"}
  Repls <- LexRepls2
  Starts0 <- NoTexts
  MaxStart = 5
  MaxCut = 2
  Steps = 1
  MaxBatch = 1
  MaxLen = 20
  WithTree = FALSE
  Mode = "emit"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit

