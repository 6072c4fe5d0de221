CONSTANTS
  Steps = 26
  MinSteps = 26
  Widths = {3,5,8,12,20}
  Units = {1,2,4}
  Trims = {TRUE,FALSE}
  Finals = {TRUE,FALSE}
  TextSet = {"w0","w1","w2","w3","w6","bl"}
  Leaves = {"line","soft","softsp","hard","nil"}
  MaxArity = 5
  Stepwise = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit

