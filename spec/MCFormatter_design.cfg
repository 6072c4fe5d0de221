CONSTANTS
  Steps = 4
  MinSteps = 0
  MaxRules = 2
  Prios = {4,6}
  Widths = {2,5}
  Kinds = {"container"}
  Does = {"mark","pass","hide"}
  MaxArity = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Sorted NothingLost NoClash
