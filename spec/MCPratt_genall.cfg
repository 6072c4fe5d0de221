CONSTANTS
  MaxLen = 5
  Mode = "emit"
  Tables <- TablesAll
  Mins = {0, 2}
  Kinds = {3, 4, 5, 6, 7}
  WellFormed = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
