CONSTANTS
  Letters = {"q", "p", "b", "n", "x"}
  MaxLen = 5
  Kind = "strings"
  Mode = "table"
  MaxSteps = 0
INIT Init
NEXT Next
INVARIANTS EmitHelpers EmitTable
CHECK_DEADLOCK FALSE
