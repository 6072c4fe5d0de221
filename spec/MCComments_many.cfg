CONSTANTS
  What = "held"
  Letters = {"a","b"," ","*","/"}
  MaxLen = 0
  MinLen = 0
  Places = {0,1,2}
  MaxComments = 40
  Steps = 40
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
