CONSTANTS
  Letters = {"a"}
  Repls <- StartRepls
  MaxStart = 3
  MaxBatch = 3
  Commits = 1
  MaxLen = 20
  Mode = "check"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Length OrderFree SomeRange
