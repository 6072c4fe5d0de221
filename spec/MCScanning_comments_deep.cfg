CONSTANTS
  Letters = {"/", "*", "n", "x"}
  MaxLen = 7
  Kind = "comments"
  Mode = "table"
  MaxSteps = 0
INIT Init
NEXT Next
INVARIANTS EmitHelpers EmitTable
CHECK_DEADLOCK FALSE
