CONSTANTS
  Located = {"syntax", "char", "token", "eof", "expected", "name", "comma"}
  SourceOnly = {"io"}
  Placeless = {"custom", "internal"}
  Letters = {"a", "n", "e"}
  MaxLen = 3
  Srcs = {0, 1}
  MaxOps = 3
  Mode = "check"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS PlaceExact ShownClean LabelInside
PROPERTIES Keeps
