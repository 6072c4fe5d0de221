CONSTANTS
  N = 0
  MaxLen = 3
  Fragments = 50
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
