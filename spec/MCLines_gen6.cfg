CONSTANTS
  Letters = {"a", "n", "r", "g", "c"}
  MaxLen = 7
  Mode = "emit"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit Injective Monotone Partition
