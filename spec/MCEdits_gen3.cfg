CONSTANTS
  Letters = {"a", "e"}
  Repls <- StartRepls
  MaxStart = 3
  MaxBatch = 3
  Commits = 1
  MaxLen = 20
  Mode = "emit"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
