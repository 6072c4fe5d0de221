CONSTANTS
  Files <- F4
  Mode = "far"
  Steps = 16
  Texts <- TextsL
  Exts <- ExtAll
  Who = {"lex","parse","build"}
INIT Init
NEXT FarNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
