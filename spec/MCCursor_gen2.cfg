CONSTANTS
  Letters = {"a", "e"}
  MinLen = 3
  MaxLen = 3
  Steps = 2
  Mode = "emit"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit InText FindSound
