CONSTANTS
  What = "graph"
  MaxNodes = 4
  MinNodes = 4
  MaxEdges = 4
  MinEdges = 1
  Sizes = {"no"}
  Nowhere = FALSE
  Grid = 0
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS EmitGraph
