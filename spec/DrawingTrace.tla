---------------------------- MODULE DrawingTrace ----------------------------
(* Recorded drawings are judged one box and one line at a time; lists of cycles one cycle at a time. *)
EXTENDS Drawing, TLC, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES hid, i
\* a drawing: [rule, size, up, depth, edges, acyclic, boxes, lines, frame]; boxes are <<node, x, y, w, h>>; a list of cycles: [rule |-> "cycles", edges, directed, found]
R == H[hid]
Bx(b) == [x |-> b[2], y |-> b[3], w |-> b[4], h |-> b[5]]
TInit == hid \in 1..Len(H) /\ i = 1 /\ joined = {} /\ placed = IF R.rule = "cycles" THEN <<>> ELSE [k \in 1..Len(R.size) |-> <<>>]
Total == IF R.rule = "cycles" THEN Len(R.found) ELSE Len(R.boxes) + Len(R.lines)
Ln(k) == R.lines[k - Len(R.boxes)]
Good == IF R.rule = "cycles" THEN Round(R.edges, R.found[i], R.directed)
        ELSE IF i <= Len(R.boxes) THEN CanPlace(R, R.rule, R.boxes[i][1], Bx(R.boxes[i])) ELSE CanJoin(R, Ln(i))
Act == IF R.rule = "cycles" THEN UNCHANGED <<placed, joined>>
       ELSE IF i <= Len(R.boxes) THEN Place(R, R.rule, R.boxes[i][1], Bx(R.boxes[i])) ELSE Join(R, Ln(i))
TNext == i <= Total /\ Good /\ Act /\ i' = i + 1 /\ UNCHANGED hid
Why == IF i <= Total THEN (IF Good THEN "" ELSE IF R.rule = "cycles" THEN "not a cycle" ELSE IF i <= Len(R.boxes) THEN "box" ELSE "line")
       ELSE IF R.rule = "cycles" THEN ""
       ELSE IF ~Complete(R) THEN "missing" ELSE IF R.frame # <<>> /\ ~Framed(R, Bx(R.frame)) THEN "frame" ELSE ""
Judged == Why # "" => PrintT("@" \o ToJson([bad |-> hid, why |-> Why, at |-> i]))
=============================================================================
