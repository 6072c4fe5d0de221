CONSTANTS
  Names = {"a","b"}
  Depth = 2
  Contents <- C1
  Styles = {"rel"}
  Steps = 3
  Foreign = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
