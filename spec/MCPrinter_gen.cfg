CONSTANTS
  Steps = 6
  MinSteps = 6
  Widths = {3}
  Units = {2}
  Trims = {TRUE}
  Finals = {TRUE}
  TextSet = {"w1","w2"}
  Leaves = {"line","soft","hard"}
  MaxArity = 3
  Stepwise = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit

