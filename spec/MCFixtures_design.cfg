CONSTANTS
  Files <- F2
  Mode = "design"
  Steps = 0
  Texts <- TextsD2
  Exts <- ExtXY
  Who = {"parse"}
INIT Init
NEXT DNext
INVARIANTS Sound Blames
PROPERTIES Careful Keeps
CHECK_DEADLOCK FALSE
