CONSTANTS
  Steps = 24
  MinSteps = 24
  MinKeys = 5
  MaxKeys = 9
  MaxPieces = 10
  MaxText = 6
  Kinds = {"keyword","control","arrow","number","blank","note"}
  Cats = {"source","markup","config","dsl"}
  Letters = {"p","lt","gt","amp","quot","apos","nl","cr","tab","bs","ff","bel","del","sp"}
  Looks = {"red","green","blue","yellow","pink","cyan","odd","bold","back","plain"}
  Gaps = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
