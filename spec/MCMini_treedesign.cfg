CONSTANTS
  Letters = {"a", "b", "x", ";", "{", "}", " "}
  Repls <- TreeRepls
  Starts0 <- Seeds
  MaxStart = 3
  MaxCut = 2
  Steps = 1
  MaxBatch = 1
  MaxLen = 20
  WithTree = TRUE
  Mode = "design"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Resumable Tiles Holds
VIEW DesignView
