CONSTANTS
  Depth = 24
  Mode = "emit"
  Programs <- ProgramsLarge
  KindsN = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit

