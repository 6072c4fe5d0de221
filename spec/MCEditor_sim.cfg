CONSTANTS
  Files <- FilesABC
  Names = {"x", "y", "m"}
  Modules = {"m"}
  Items <- Large
  MaxLen = 12
  Mode = "emit"
  MaxSteps = 12
INIT MCInit
NEXT MCNext
INVARIANT Emit
CHECK_DEADLOCK FALSE