CONSTANTS
  Letters = {"a"}
  Repls <- TreeRepls2
  Starts0 <- Seeds
  MaxStart = 0
  MaxCut = 3
  Steps = 1
  MaxBatch = 1
  MaxLen = 20
  WithTree = TRUE
  Mode = "emit"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit

