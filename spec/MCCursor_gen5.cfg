CONSTANTS
  Letters = {"a", "e", "b"}
  MinLen = 5
  MaxLen = 5
  Steps = 1
  Mode = "emit"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit InText FindSound
