CONSTANTS
  Langs = {"brackets","marked"}
  Open = "("
  Close = ")"
  Chars = {"a","e","k","g","(",")","b"}
  Steps = 40
  MaxText = 30
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
