------------------------------ MODULE MCPlane ------------------------------
(* Plane figures: two boxes and a point; a point moved by one map after the other. *)
EXTENDS Drawing, TLC, Json
CONSTANTS What, Span, MaxMaps
VARIABLES a, b, p, maps
vars == <<a, b, p, maps, placed, joined>>
Boxes == [x : {-1, 1}, y : 0..Span, w : 0..Span, h : {0, 2}] \cup [x : 0..Span, y : {0, 1}, w : {1, 2}, h : 1..Span]
Points == (-1..(Span + 1)) \X (-1..(Span + 1))
Maps == {[k |-> "move", a |-> 1, b |-> 0, c |-> 0, d |-> 1, e |-> 2, f |-> -1], [k |-> "scale", a |-> 2, b |-> 0, c |-> 0, d |-> 3, e |-> 0, f |-> 0],
         [k |-> "turn", a |-> 0, b |-> 1, c |-> -1, d |-> 0, e |-> 0, f |-> 0], [k |-> "none", a |-> 1, b |-> 0, c |-> 0, d |-> 1, e |-> 0, f |-> 0],
         [k |-> "any", a |-> 1, b |-> 2, c |-> -3, d |-> 4, e |-> 5, f |-> -6]}
Init == /\ maps = <<>> /\ joined = {} /\ placed = <<>>
        /\ IF What = "boxes" THEN a \in Boxes /\ b \in Boxes /\ p \in {<<x, y>> \in Points : x + y \in {0, 2}}
           ELSE a = <<>> /\ b = <<>> /\ p \in {<<0, 0>>, <<1, 2>>, <<-3, 1>>}
Next == What = "maps" /\ Len(maps) < MaxMaps /\ \E m \in Maps : maps' = Append(maps, m) /\ UNCHANGED <<a, b, p, placed, joined>>
Moved == LET go[k \in 0..Len(maps)] == IF k = 0 THEN p ELSE Image(maps[k], go[k - 1]) IN go[Len(maps)]
Emit == PrintT("@" \o ToJson(IF What = "boxes" THEN [a |-> a, b |-> b, p |-> p, touch |-> Touch(a, b), holds |-> Holds(a, p), hull |-> Hull(a, b)]
                             ELSE [maps |-> maps, p |-> p, moved |-> Moved]))
(* ---- design properties ---- *)
TouchShares == What = "boxes" => (Touch(a, b) <=> \E q \in (-2..(2 * Span + 2)) \X (-2..(2 * Span + 2)) : Holds(a, q) /\ Holds(b, q))
ApartShareNone == (What = "boxes" /\ Apart(a, b)) => ~\E q \in (-2..(2 * Span + 2)) \X (-2..(2 * Span + 2)) :
   \* no unit square lies in both
   /\ Holds(a, q) /\ Holds(b, q) /\ Holds(a, <<q[1] + 1, q[2] + 1>>) /\ Holds(b, <<q[1] + 1, q[2] + 1>>)
HullHolds == What = "boxes" => /\ Holds(a, p) \/ Holds(b, p) => Holds(Hull(a, b), p)
                               /\ Hull(a, b) = Hull(b, a) /\ Hull(a, a) = a
                               /\ Covers(Hull(a, b), a) /\ Covers(Hull(a, b), b)
=============================================================================
