CONSTANTS
  MaxLen = 7
  Mode = "emit"
  Tables <- TablesSmall
  Mins = {0, 2}
  Kinds = {3, 4, 5, 6, 7, 9, 10}
  WellFormed = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
