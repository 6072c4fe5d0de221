CONSTANTS
  What = "tree"
  MaxNodes = 4
  MinNodes = 0
  MaxEdges = 0
  MinEdges = 0
  Sizes = {"no","small","wide","tall"}
  Nowhere = FALSE
  Grid = 0
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS EmitTree
