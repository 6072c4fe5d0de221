CONSTANTS
  Steps = 24
  MinSteps = 24
  MaxRules = 4
  Prios = {0,4,5,6,8,10,12}
  Widths = {3,6,10,16,30}
  Kinds = {"container","statement","comma","plain","other","punct","within","below","inner"}
  Does = {"mark","pass","hide"}
  MaxArity = 4
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
