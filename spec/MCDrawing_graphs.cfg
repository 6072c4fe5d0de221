CONSTANTS
  What = "graph"
  MaxNodes = 3
  MinNodes = 0
  MaxEdges = 3
  MinEdges = 0
  Sizes = {"no"}
  Nowhere = TRUE
  Grid = 0
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS EmitGraph
