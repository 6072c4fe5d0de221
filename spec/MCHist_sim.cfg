CONSTANTS
  F = 8
  MaxStart = 3
  Steps = 6
  MaxBatch = 3
  MaxRepl = 1
  MaxCut = 2
  MaxLen = 14
  Mode = "emit"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
