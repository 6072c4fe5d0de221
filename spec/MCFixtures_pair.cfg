CONSTANTS
  Files <- F1
  Mode = "pair"
  Steps = 4
  Texts <- TextsL
  Exts <- ExtX
  Who = {"lex","parse","build"}
INIT Init
NEXT PairNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
