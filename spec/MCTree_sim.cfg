CONSTANTS
  MaxElems = 16
  MinElems = 16
  Lens = {0, 1, 2, 5}
  Mode = "sim"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS EmitLast
