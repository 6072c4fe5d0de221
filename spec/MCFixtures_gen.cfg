CONSTANTS
  Files <- F1
  Mode = "one"
  Steps = 4
  Texts <- TextsS
  Exts <- ExtX
  Who = {"lex","parse","build"}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
