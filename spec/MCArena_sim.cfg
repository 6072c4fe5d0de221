CONSTANTS
  Ids = {1, 2, 3}
  Cap = 8
  PoolLimit = 64
  Sizes = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 30}
  Kinds = {"v", "copy", "fill", "meta"}
  Depth = 60
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
