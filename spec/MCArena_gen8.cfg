CONSTANTS
  Ids = {1}
  Cap = 8
  PoolLimit = 64
  Sizes = {0, 1, 7, 8}
  Kinds = {"v"}
  Depth = 8
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
