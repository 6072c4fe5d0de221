CONSTANTS
  Steps = 9
  MinSteps = 3
  Halves = {1,4,6,7}
  NumWays = {"plain","whole","typed","small","sum","cast","some","named"}
  TextWays = {"plain","own","format","ref","if","named"}
  ArrayWays = {"plain","trailing"}
  ObjectWays = {"plain","names","trailing"}
  HeldWays = {"macro","list","some","match","block"}
  MaxArity = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
