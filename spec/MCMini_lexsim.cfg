CONSTANTS
  Letters = {"a", "1", ".", "q", "n", "=", "h", "e", " ", "b"}
  Repls <- LexRepls2
  Starts0 <- NoTexts
  MaxStart = 4
  MaxCut = 3
  Steps = 12
  MaxBatch = 3
  MaxLen = 14
  WithTree = FALSE
  Mode = "sim"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit

