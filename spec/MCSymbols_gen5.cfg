CONSTANTS
  Files = {"file:///w/a", "file:///w/b"}
  Shapes <- ShapesDef
  Depth = 5
  Mode = "emit"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
