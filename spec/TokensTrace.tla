---------------------------- MODULE TokensTrace ----------------------------
(* Recorded lists of pieces are judged one piece at a time. *)
EXTENDS Tokens, TLC, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES hid, i, bad
\* a record: [len, cuts, pieces, end]; pieces are <<start, end, mark>>, end says whether there has to be an end mark
P == H[hid].pieces
TInit == /\ hid \in 1..Len(H) /\ i = 1 /\ bad = FALSE
         /\ text = [len |-> H[hid].len, cuts |-> H[hid].cuts] /\ pos = 0 /\ marked = FALSE
Piece == i <= Len(P) /\ P[i][3] = 0 /\ Take(P[i][1], P[i][2]) /\ i' = i + 1 /\ UNCHANGED <<hid, bad>>
End == i <= Len(P) /\ P[i][3] = 1 /\ Mark(P[i][1], P[i][2]) /\ i' = i + 1 /\ UNCHANGED <<hid, bad>>
Reason == IF i > Len(P) THEN (IF pos < text.len THEN "short" ELSE IF H[hid].end = 1 /\ ~marked THEN "no end" ELSE "")
          ELSE IF P[i][3] = 1 THEN (IF CanMark(P[i][1], P[i][2]) THEN "" ELSE WhyNotMark(P[i][1], P[i][2]))
          ELSE IF CanTake(P[i][1], P[i][2]) THEN "" ELSE Why(P[i][1], P[i][2])
TNext == Piece \/ End
Judged == Reason # "" => PrintT("@" \o ToJson([bad |-> hid, why |-> Reason, at |-> i]))
=============================================================================
