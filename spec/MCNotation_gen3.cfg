CONSTANTS
  Steps = 3
  MinSteps = 3
  Leaves = {"soft_line"}
  TextWays = {"own","slice","plus"}
  HeldWays = {"macro","if","ref","framed"}
  JoinWays = {"vec","if"}
  Styles = {"brackets","trailing","bare"}
  MaxArity = 2
  Width = 4
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
