CONSTANTS
  Names = {"a","b"}
  Depth = 3
  Contents <- C4
  Styles = {"rel","abs"}
  Steps = 14
  Foreign = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
