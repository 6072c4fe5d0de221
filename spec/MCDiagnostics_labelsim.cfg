CONSTANTS
  Located = {"syntax", "char", "token", "eof", "expected", "name", "comma"}
  SourceOnly = {"io"}
  Placeless = {"custom", "internal"}
  Letters = {"a", "b", "n", "r", "e", "c", "g", "t", "L", " "}
  MaxLen = 16
  Srcs = {0}
  MaxOps = 1
  Mode = "emit"
INIT Init
NEXT NextLabels
CHECK_DEADLOCK FALSE
INVARIANTS EmitLabels
