CONSTANTS
  Uris = {"mem:/a", "mem:/b", "mem:/d/c", "file:///x y"}
  Contents = {"c0", "c1", "c2"}
  Depth = 40
  Handles = {0, 1}
  MaxIds = 99
INIT MCInit
NEXT MCNext
INVARIANTS Emit
CHECK_DEADLOCK FALSE
