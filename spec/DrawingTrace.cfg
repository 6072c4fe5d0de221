INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
INVARIANTS Judged
