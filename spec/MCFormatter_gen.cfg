CONSTANTS
  Steps = 4
  MinSteps = 4
  MaxRules = 1
  Prios = {5,10}
  Widths = {3}
  Kinds = {"container","comma"}
  Does = {"mark","pass"}
  MaxArity = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
