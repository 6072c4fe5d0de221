CONSTANTS
  What = "held"
  Letters = {"a","b"," ","*","/"}
  MaxLen = 0
  MinLen = 0
  Places = {0,1,3}
  MaxComments = 3
  Steps = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
