CONSTANTS
  Names = {"a","b"}
  Depth = 2
  Steps = 3
  First = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
