CONSTANTS
  Letters = {"a", "b", ";", "{", "}"}
  Repls <- TreeRepls
  Starts0 <- Seeds
  MaxStart = 5
  MaxCut = 1
  Steps = 1
  MaxBatch = 1
  MaxLen = 20
  WithTree = TRUE
  Mode = "emit"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit

