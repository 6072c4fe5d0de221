CONSTANTS
  Sizes = {1, 40, 700, 6000}
  Depth = 14
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
