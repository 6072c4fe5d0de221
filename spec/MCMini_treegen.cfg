CONSTANTS
  Letters = {"a", "b", "x", ";", "{", "}", " "}
  Repls <- TreeRepls
  Starts0 <- NoTexts
  MaxStart = 3
  MaxCut = 2
  Steps = 1
  MaxBatch = 1
  MaxLen = 20
  WithTree = TRUE
  Mode = "emit"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit

