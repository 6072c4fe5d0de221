CONSTANTS
  Files <- FilesA
  Names = {"x", "y", "m"}
  Modules = {"m"}
  Items <- Small
  MaxLen = 4
  Mode = "one"
  MaxSteps = 0
INIT MCInit
NEXT GrowNext
INVARIANT EmitOne
CHECK_DEADLOCK FALSE