CONSTANTS
  What = "graph"
  MaxNodes = 7
  MinNodes = 7
  MaxEdges = 9
  MinEdges = 9
  Sizes = {"no"}
  Nowhere = TRUE
  Grid = 0
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS EmitGraph
