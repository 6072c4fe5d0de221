CONSTANTS
  What = "maps"
  Span = 0
  MaxMaps = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit TouchShares ApartShareNone HullHolds
