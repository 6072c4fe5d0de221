CONSTANTS
  Uris = {"mem:/a", "mem:/b"}
  Contents = {"c0", "c1", "c2"}
INIT LinInit
NEXT LinNext
INVARIANT Mark
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
