CONSTANTS
  N = 12
  MaxLen = 12
  Fragments = 50
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
