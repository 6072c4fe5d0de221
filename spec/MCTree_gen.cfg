CONSTANTS
  MaxElems = 6
  MinElems = 1
  Lens = {0, 1, 3}
  Mode = "emit"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
