CONSTANTS
  Steps = 4
  MinSteps = 1
  Leaves = {"line","soft_line"}
  TextWays = {"own","parts"}
  HeldWays = {"macro","framed"}
  JoinWays = {"vec","ref"}
  Styles = {"brackets","trailing","bare"}
  MaxArity = 2
  Width = 4
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Kept Between1
