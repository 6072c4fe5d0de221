CONSTANTS
  Steps = 4
  MinSteps = 4
  MaxRules = 1
  Prios = {7}
  Widths = {3}
  Kinds = {"within","below","inner"}
  Does = {"mark","hide"}
  MaxArity = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
