CONSTANTS
  MaxElems = 5
  MinElems = 1
  Lens = {0, 1, 3}
  Mode = "check"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS SpansAreConcatenations SiblingsAreChildren OneLeafPerByte StepReachesAll SkipLeaves
