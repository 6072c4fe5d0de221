CONSTANTS
  Langs = {"brackets"}
  Open = "("
  Close = ")"
  Chars = {"a","e","("}
  Steps = 5
  MaxText = 9
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
