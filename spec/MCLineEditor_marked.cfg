CONSTANTS
  Langs = {"marked"}
  Open = "("
  Close = ")"
  Chars = {"a"," ","("}
  Steps = 4
  MaxText = 9
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
