CONSTANTS
  Langs = {"brackets"}
  Open = "("
  Close = ")"
  Chars = {"a","e","("}
  Steps = 6
  MaxText = 9
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
