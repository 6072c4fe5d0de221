CONSTANTS
  Steps = 5
  MinSteps = 4
  Widths = {2,5}
  Units = {4}
  Trims = {TRUE,FALSE}
  Finals = {TRUE,FALSE}
  TextSet = {"w1","bl"}
  Leaves = {"line","soft","softsp","hard","nil"}
  MaxArity = 4
  Stepwise = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit

