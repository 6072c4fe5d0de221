------------------------------- MODULE MCWatch -------------------------------
EXTENDS Watch, TLC, Json
CONSTANTS Names, Depth, Steps, First
VARIABLES tree, roots, n, hist
mc == <<tree, roots, n, hist>>
All == UNION {[1..d -> Names] : d \in 1..Depth}
Dirs == [q \in {<<x>> : x \in Names} |-> "dir"]
Seeded == LET x == CHOOSE x \in Names : TRUE IN With(With(Dirs, <<x, x>>, "dir"), <<x, x, x>>, "file")
Init == /\ tree \in {Dirs, Seeded} /\ n = 0
        /\ roots \in (IF First THEN {{p} : p \in {p \in Paths(tree) : Len(p) = 1}} ELSE {{}})
        /\ hist = <<[op |-> "start", tree |-> {[path |-> p, kind |-> tree[p]] : p \in Paths(tree)}, roots |-> roots]>>
Step(op) == n < Steps /\ n' = n + 1 /\ hist' = Append(hist, op)
\* an operation, what it leaves, and what must be reported of it; ok: whether the watcher accepts it
Op(name, p, q, ok, changes) == Step([op |-> name, path |-> p, to |-> q, ok |-> ok, reports |-> Report(roots, changes)])
WatchIt == \E p \in All : Apart(roots, p) /\ Op("watch", p, <<>>, p \in Paths(tree), {}) /\ roots' = (IF p \in Paths(tree) THEN roots \cup {p} ELSE roots) /\ UNCHANGED tree
Unwatch == \E p \in roots : Op("unwatch", p, <<>>, TRUE, {}) /\ roots' = roots \ {p} /\ UNCHANGED tree
UnwatchAll == roots # {} /\ Op("unwatchall", <<>>, <<>>, TRUE, {}) /\ roots' = {} /\ UNCHANGED tree
Write == \E p \in All : CanHold(tree, p) /\ ~IsDir(tree, p) /\ tree' = With(tree, p, "file") /\ UNCHANGED roots
           /\ Op("write", p, <<>>, TRUE, {[path |-> p, is |-> IF p \in Paths(tree) THEN "written" ELSE "new"]})
Mkdir == \E p \in All : CanHold(tree, p) /\ p \notin Paths(tree) /\ tree' = With(tree, p, "dir") /\ UNCHANGED roots /\ Op("mkdir", p, <<>>, TRUE, {[path |-> p, is |-> "new"]})
Remove == \E p \in Paths(tree) : tree' = Without(tree, p) /\ roots' = {r \in roots : ~AtOrBelow(r, p)}
            /\ Op("remove", p, <<>>, TRUE, {[path |-> q, is |-> "gone"] : q \in {q \in Paths(tree) : AtOrBelow(q, p)}})
Rename == \E a \in Paths(tree), b \in All :
            /\ a # b /\ ~Below(b, a) /\ CanHold(tree, b) /\ \A r \in roots : ~AtOrBelow(r, a) /\ r # b
            /\ (IF b \in Paths(tree) THEN tree[b] = "file" /\ tree[a] = "file" ELSE TRUE)
            /\ \A q \in Paths(tree) : AtOrBelow(q, a) => Len(Move(q, a, b)) <= Depth
            /\ tree' = Moved(tree, a, b) /\ UNCHANGED roots
            /\ Op("rename", a, b, TRUE, {[path |-> a, is |-> "gone"], [path |-> b, is |-> IF b \in Paths(tree) THEN "replaced" ELSE "new"]})
Next == WatchIt \/ Unwatch \/ UnwatchAll \/ Write \/ Mkdir \/ Remove \/ Rename
Emit == n = Steps => PrintT("@" \o ToJson(hist))
\* Design properties: watched paths stay apart and in the tree; replaying the reports on a copy of what is watched keeps it up to date
Tidy == /\ \A r \in roots : r \in Paths(tree) /\ Apart(roots \ {r}, r)
        /\ \A p \in Paths(tree) : CanHold(tree, p)
Seen(t, r) == {p \in Paths(t) : Watched(r, p)}
Tops(s) == {p \in s : Parent(p) \notin s}
Last == hist'[Len(hist')]
Reported == [][ /\ \A c \in Last.reports : c.is = "gone" => c.path \notin Paths(tree')
                /\ \A c \in Last.reports : c.is = "new" => c.path \in Paths(tree') \ Paths(tree)
                /\ roots' \subseteq roots => (Tops(Seen(tree', roots) \ Seen(tree, roots)) \subseteq {c.path : c \in Last.reports}
                     /\ Tops(Seen(tree, roots) \ Seen(tree', roots)) \subseteq {c.path : c \in Last.reports}) ]_mc
==============================================================================
