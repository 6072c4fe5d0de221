CONSTANTS
  Names = {"a","b"}
  Depth = 3
  Steps = 3
  First = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Tidy
PROPERTIES Reported
