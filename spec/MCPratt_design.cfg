CONSTANTS
  MaxLen = 5
  Mode = "check"
  Tables <- TablesSmall
  Mins = {0, 2}
  Kinds = {3, 4, 5, 6, 7, 9, 10}
  WellFormed = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS GroupsAsDeclared TakesAll EveryTokenOnce
