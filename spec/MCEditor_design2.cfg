CONSTANTS
  Files <- FilesABC
  Names = {"x", "y", "m"}
  Modules = {"m"}
  Items <- Tiny
  MaxLen = 2
  Mode = "design"
  MaxSteps = 2
SPECIFICATION Spec
VIEW View
INVARIANTS InFile Boxed Consistent Answered
CHECK_DEADLOCK FALSE