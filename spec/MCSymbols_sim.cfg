CONSTANTS
  Files = {"file:///w/a", "file:///w/b", "c"}
  Shapes <- ShapesDef
  Depth = 30
  Mode = "emit"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
