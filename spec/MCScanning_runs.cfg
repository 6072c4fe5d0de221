CONSTANTS
  Letters = {"/", "*", "q", "b", "n", "s", "a", "9", "E", "."}
  MaxLen = 12
  Kind = "mixed"
  Mode = "emit"
  MaxSteps = 7
INIT Init
NEXT Next
INVARIANTS EmitRunHelpers EmitRun
CHECK_DEADLOCK FALSE
