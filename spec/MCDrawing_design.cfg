CONSTANTS
  What = "tree"
  MaxNodes = 4
  MinNodes = 0
  MaxEdges = 0
  MinEdges = 0
  Sizes = {"no"}
  Nowhere = FALSE
  Grid = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Rooted TreeIsTree NoOverlap Lower
