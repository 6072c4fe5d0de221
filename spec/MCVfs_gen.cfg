CONSTANTS
  Uris = {"mem:/a", "mem:/b"}
  Contents = {"c0", "c1"}
  Depth = 4
  Handles = {0, 1}
  MaxIds = 99
INIT MCInit
NEXT MCNext
INVARIANTS Emit
CHECK_DEADLOCK FALSE
