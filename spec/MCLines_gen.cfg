CONSTANTS
  Letters = {"a", "n", "r", "g", "e"}
  MaxLen = 5
  Mode = "emit"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit Injective Monotone Partition
