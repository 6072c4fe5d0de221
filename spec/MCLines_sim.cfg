CONSTANTS
  Letters = {"a", "n", "r", "t", "e", "c", "g", "L", "B"}
  MaxLen = 14
  Mode = "emit"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS EmitLong
