CONSTANTS
  Depth = 6
  Mode = "check"
INIT Init
NEXT Next
VIEW Hidden
CHECK_DEADLOCK FALSE
INVARIANTS ResolvesToExisting SiblingFirst RootUseful
PROPERTIES FoldersOnly
