CONSTANTS
  Letters = {"a", "b", "x", "1", " ", "t", "n", "e", "c", "g"}
  MinLen = 6
  MaxLen = 12
  Steps = 25
  Mode = "emit"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit InText FindSound
