CONSTANTS
  Steps = 5
  MinSteps = 5
  MaxRules = 1
  Prios = {4,6,12}
  Widths = {3}
  Kinds = {"container","comma"}
  Does = {"mark"}
  MaxArity = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
