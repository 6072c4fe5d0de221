CONSTANTS
  Letters = {"/", "*", "q", "n", "a"}
  MaxLen = 3
  Kind = "mixed"
  Mode = "design"
  MaxSteps = 4
SPECIFICATION Spec
VIEW View
INVARIANTS Ordered Whole Local
PROPERTIES Forward
CHECK_DEADLOCK FALSE
