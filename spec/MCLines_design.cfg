CONSTANTS
  Letters = {"a", "n", "r", "g"}
  MaxLen = 5
  Mode = "check"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit Injective Monotone Partition
