CONSTANTS
  MaxTokens = 5
  MaxLength = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Same Whole Live
