CONSTANTS
  Letters = {"a", "e", "b"}
  MinLen = 0
  MaxLen = 4
  Steps = 3
  Mode = "check"
INIT Init
NEXT Next
VIEW Shown
CHECK_DEADLOCK FALSE
INVARIANTS Emit InText FindSound
