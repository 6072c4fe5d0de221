CONSTANTS
  Letters = {"/", "*", "n", "x"}
  MaxLen = 14
  Kind = "comments"
  Mode = "table"
  MaxSteps = 0
INIT Init
NEXT Next
INVARIANTS EmitHelpers EmitLong
CHECK_DEADLOCK FALSE
