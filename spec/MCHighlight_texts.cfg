CONSTANTS
  Steps = 4
  MinSteps = 2
  MinKeys = 0
  MaxKeys = 1
  MaxPieces = 1
  MaxText = 3
  Kinds = {"keyword"}
  Cats = {"source"}
  Letters = {"p","lt","gt","amp","quot","apos","nl","cr","tab","bs","ff","bel","del","sp"}
  Looks = {"cyan"}
  Gaps = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
