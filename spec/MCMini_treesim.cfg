CONSTANTS
  Letters = {"a", "b", "x", ";", "{", "}", " "}
  Repls <- TreeRepls2
  Starts0 <- Seeds
  MaxStart = 4
  MaxCut = 3
  Steps = 8
  MaxBatch = 3
  MaxLen = 16
  WithTree = TRUE
  Mode = "sim"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit

