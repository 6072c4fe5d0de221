CONSTANTS
  Files = {"file:///w/a", "file:///w/b"}
  Shapes = {}
INIT LinInit
NEXT LinNext
INVARIANT Mark
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
