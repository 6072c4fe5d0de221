CONSTANTS
  Letters = {"a", "e", "g", "B"}
  Repls <- BigRepls
  MaxStart = 4
  MaxBatch = 4
  Commits = 6
  MaxLen = 12
  Mode = "emit"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
