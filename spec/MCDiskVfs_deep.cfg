CONSTANTS
  Names = {"a"}
  Depth = 3
  Contents <- C1
  Styles = {"rel"}
  Steps = 4
  Foreign = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
