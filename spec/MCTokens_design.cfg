CONSTANTS
  MaxLen = 4
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Disjoint Covered Whole CanFinish
