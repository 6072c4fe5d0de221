CONSTANTS
  Depth = 5
  Mode = "emit"
  Programs <- ProgramsSmall
  KindsN = 1
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit

