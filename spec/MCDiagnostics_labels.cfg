CONSTANTS
  Located = {"syntax", "char", "token", "eof", "expected", "name", "comma"}
  SourceOnly = {"io"}
  Placeless = {"custom", "internal"}
  Letters = {"a", "n", "r", "e", "g"}
  MaxLen = 4
  Srcs = {0}
  MaxOps = 1
  Mode = "emit"
INIT Init
NEXT NextLabels
CHECK_DEADLOCK FALSE
INVARIANTS EmitLabels
