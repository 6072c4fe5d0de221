CONSTANTS
  Letters = {"q", "p", "b", "n", "x"}
  MaxLen = 14
  Kind = "strings"
  Mode = "table"
  MaxSteps = 0
INIT Init
NEXT Next
INVARIANTS EmitHelpers EmitLong
CHECK_DEADLOCK FALSE
