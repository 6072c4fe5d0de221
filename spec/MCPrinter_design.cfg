CONSTANTS
  Steps = 5
  MinSteps = 0
  Widths = {2,4}
  Units = {1}
  Trims = {TRUE,FALSE}
  Finals = {TRUE}
  TextSet = {"w1","bl"}
  Leaves = {"line","soft","hard"}
  MaxArity = 3
  Stepwise = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS RunsAlike LayoutRight
PROPERTIES FlatGroups
