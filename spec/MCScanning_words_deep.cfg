CONSTANTS
  Letters = {"a", "f", "9", "_", "s", "t", "n", "U", "E", "."}
  MaxLen = 5
  Kind = "words"
  Mode = "table"
  MaxSteps = 0
INIT Init
NEXT Next
INVARIANTS EmitHelpers EmitTable
CHECK_DEADLOCK FALSE
