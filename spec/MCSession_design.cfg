CONSTANTS
  Sizes = {1}
  Depth = 12
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS LastIsBest BestIsOld
VIEW DesignView
