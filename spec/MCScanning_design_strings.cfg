CONSTANTS
  Letters = {"q", "p", "b", "x"}
  MaxLen = 6
  Kind = "strings"
  Mode = "design"
  MaxSteps = 0
SPECIFICATION Spec
INVARIANTS Ordered Whole Local Closing
CHECK_DEADLOCK FALSE
