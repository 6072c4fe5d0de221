CONSTANTS
  Uris = {"mem:/a", "mem:/b", "mem:/d/c"}
  Contents = {"c0", "c1", "c2"}
  Depth = 0
  Handles = {0}
  MaxIds = 6
INIT Init0
NEXT Next0
INVARIANTS TypeOK Bijection IdIffPresent RoundTrip
PROPERTY NoReuse0
CONSTRAINT Bounded
