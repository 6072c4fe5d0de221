CONSTANTS
  Names = {"a","b"}
  Depth = 3
  Steps = 14
  First = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
