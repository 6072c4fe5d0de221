CONSTANTS
  What = "tree"
  MaxNodes = 12
  MinNodes = 12
  MaxEdges = 0
  MinEdges = 0
  Sizes = {"no","small","wide","tall"}
  Nowhere = FALSE
  Grid = 0
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS EmitTree
