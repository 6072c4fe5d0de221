CONSTANTS
  Letters = {"a", "e", "b"}
  MinLen = 3
  MaxLen = 3
  Steps = 1
  Mode = "emit"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit InText FindSound
