-------------------------------- MODULE Watch --------------------------------
(* Watching a directory tree: which paths are watched, and what a watcher reports of each change made to the tree. *)
EXTENDS Integers, Sequences, FiniteSets
Below(p, q) == Len(p) > Len(q) /\ SubSeq(p, 1, Len(q)) = q
AtOrBelow(p, q) == p = q \/ Below(p, q)
Parent(p) == SubSeq(p, 1, Len(p) - 1)
\* a tree is a function from paths to "dir" or "file"; the root is always there
Paths(t) == DOMAIN t
IsDir(t, p) == p = <<>> \/ (p \in Paths(t) /\ t[p] = "dir")
CanHold(t, p) == IsDir(t, Parent(p))
Without(t, p) == [q \in {q \in Paths(t) : ~AtOrBelow(q, p)} |-> t[q]]
With(t, p, k) == [q \in Paths(t) \cup {p} |-> IF q = p THEN k ELSE t[q]]
Move(q, a, b) == b \o SubSeq(q, Len(a) + 1, Len(q))
Moved(t, a, b) == LET rest == [q \in {q \in Paths(t) : ~AtOrBelow(q, a) /\ q # b} |-> t[q]]
                      new == {Move(q, a, b) : q \in {q \in Paths(t) : AtOrBelow(q, a)}} IN
                  [q \in DOMAIN rest \cup new |-> IF q \in new THEN t[Move(q, b, a)] ELSE rest[q]]
\* what is watched: everything at or below a watched path
Watched(roots, p) == \E r \in roots : AtOrBelow(p, r)
Apart(roots, p) == \A r \in roots : ~AtOrBelow(p, r) /\ ~Below(r, p)
\* reports of a change, for watched paths only; a moved directory is reported as one, its contents move with it
Report(roots, changes) == {c \in changes : Watched(roots, c.path)}
==============================================================================
