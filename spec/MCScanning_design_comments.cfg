CONSTANTS
  Letters = {"/", "*", "n", "x"}
  MaxLen = 5
  Kind = "comments"
  Mode = "design"
  MaxSteps = 0
SPECIFICATION Spec
INVARIANTS Ordered Whole Local Comment1 Nesting
CHECK_DEADLOCK FALSE
