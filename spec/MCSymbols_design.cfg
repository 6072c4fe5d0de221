CONSTANTS
  Files = {"file:///w/a", "file:///w/b"}
  Shapes <- ShapesDef
  Depth = 4
  Mode = "check"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
 NothingLost NothingStale
PROPERTY Independence
