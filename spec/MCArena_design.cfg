CONSTANTS
  Ids = {1, 2}
  Cap = 3
  PoolLimit = 2
  Sizes = {0, 1, 2, 3, 4}
  Kinds = {"v"}
  Depth = 6
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Disjoint NothingLost Bounded
VIEW DesignView
