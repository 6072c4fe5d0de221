CONSTANTS
  Names = {"a","b"}
  Depth = 2
  Steps = 3
  First = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
