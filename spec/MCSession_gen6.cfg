CONSTANTS
  Sizes = {1, 700}
  Depth = 6
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
