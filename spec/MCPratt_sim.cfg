CONSTANTS
  MaxLen = 17
  Mode = "sim"
  Tables <- TablesAll
  Mins = {0, 1, 2}
  Kinds = {3, 4, 5, 6, 7, 9, 10}
  WellFormed = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS EmitLast
