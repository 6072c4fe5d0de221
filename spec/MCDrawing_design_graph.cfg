CONSTANTS
  What = "graph"
  MaxNodes = 3
  MinNodes = 0
  MaxEdges = 2
  MinEdges = 0
  Sizes = {"no"}
  Nowhere = TRUE
  Grid = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS CyclesExist Handshake NoOverlap
