CONSTANTS
  F = 4
  MaxStart = 3
  Steps = 1
  MaxBatch = 1
  MaxRepl = 1
  MaxCut = 2
  MaxLen = 9
  Mode = "emit"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
