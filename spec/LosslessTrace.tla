--------------------------- MODULE LosslessTrace ---------------------------
(* Recorded trees are judged one leaf at a time. *)
EXTENDS Lossless, TLC, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES hid, i
L == H[hid].leaves
TInit == hid \in 1..Len(H) /\ i = 1 /\ tokens = H[hid].tokens /\ taken = 0
TNext == i <= Len(L) /\ Hang(L[i]) /\ i' = i + 1 /\ UNCHANGED hid
Stuck == IF i <= Len(L) THEN ~CanHang(L[i]) ELSE ~Done
Judged == Stuck => PrintT("@" \o ToJson([bad |-> hid, why |-> Fault(L), at |-> taken]))
=============================================================================
