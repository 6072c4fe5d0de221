CONSTANTS
  MaxElems = 7
  MinElems = 7
  Lens = {0, 1, 3}
  Mode = "emit"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
