CONSTANTS
  What = "held"
  Letters = {"a","b"," ","*","/"}
  MaxLen = 0
  MinLen = 0
  Places = {0,1,2,3,5,9}
  MaxComments = 12
  Steps = 12
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
