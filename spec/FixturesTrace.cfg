CONSTANTS
  Files <- F4
INIT TInit
NEXT TNext
INVARIANT Mark
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
