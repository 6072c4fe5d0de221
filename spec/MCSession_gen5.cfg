CONSTANTS
  Sizes = {700}
  Depth = 5
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
