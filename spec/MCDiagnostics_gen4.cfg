CONSTANTS
  Located = {"syntax", "char", "token", "eof", "expected", "name", "comma"}
  SourceOnly = {"io"}
  Placeless = {"custom", "internal"}
  Letters = {"a", "n", "r", "e", "c", "g", "t"}
  MaxLen = 4
  Srcs = {0, 7}
  MaxOps = 2
  Mode = "emit"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS EmitErrors
