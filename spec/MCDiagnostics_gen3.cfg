CONSTANTS
  Located = {"syntax", "char", "token", "eof", "expected", "name", "comma"}
  SourceOnly = {"io"}
  Placeless = {"custom", "internal"}
  Letters = {"a", "n", "r", "e", "g"}
  MaxLen = 3
  Srcs = {0, 7}
  MaxOps = 3
  Mode = "emit"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS EmitErrors
