CONSTANTS
  Names = {"a"}
  Depth = 2
  Contents <- C1
  Styles = {"rel","abs"}
  Steps = 3
  Foreign = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
