CONSTANTS
  Files <- FilesA
  Names = {"x", "y", "m"}
  Modules = {"m"}
  Items <- Small
  MaxLen = 4
  Mode = "design"
  MaxSteps = 0
INIT MCInit
NEXT GrowNext
INVARIANTS InFile Nest Parents Boxed Consistent Answered
CHECK_DEADLOCK FALSE