CONSTANTS
  Names = {"a","b"}
  Depth = 2
  Contents <- C2
  Styles = {"rel","abs"}
  Steps = 4
  Foreign = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS IsTree Visible Gone
PROPERTIES Local
