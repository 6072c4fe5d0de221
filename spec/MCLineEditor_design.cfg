CONSTANTS
  Langs = {"brackets","marked"}
  Open = "("
  Close = ")"
  Chars = {"a","("}
  Steps = 9
  MaxText = 8
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS CursorValid
PROPERTIES Edits
VIEW DesignView
