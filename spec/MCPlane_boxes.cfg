CONSTANTS
  What = "boxes"
  Span = 2
  MaxMaps = 0
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit TouchShares ApartShareNone HullHolds
