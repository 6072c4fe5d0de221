CONSTANTS
  What = "texts"
  Letters = {"a","b"," ","*","/"}
  MaxLen = 8
  MinLen = 0
  Places = {0}
  MaxComments = 1
  Steps = 1
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
