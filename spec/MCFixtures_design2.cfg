CONSTANTS
  Files <- F1
  Mode = "design"
  Steps = 0
  Texts <- TextsD
  Exts <- ExtXY
  Who = {"lex","parse"}
INIT Init
NEXT DNext
INVARIANTS Sound Blames
PROPERTIES Careful Keeps
CHECK_DEADLOCK FALSE
