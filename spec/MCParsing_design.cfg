CONSTANTS
  Depth = 5
  Mode = "check"
  Programs <- ProgramsSmall
  KindsN = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS InOrder NoTriviaLost MarksBelow
VIEW View
