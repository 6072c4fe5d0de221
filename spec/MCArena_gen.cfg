CONSTANTS
  Ids = {1}
  Cap = 8
  PoolLimit = 64
  Sizes = {0, 1, 4, 7, 8, 12}
  Kinds = {"v"}
  Depth = 6
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
