----------------------------- MODULE MCDrawing -----------------------------
EXTENDS Drawing, TLC, Json
CONSTANTS What, MaxNodes, MinNodes, MaxEdges, MinEdges, Sizes, Nowhere, Grid
VARIABLES tree, n, edges, directed, phase
vars == <<tree, n, edges, directed, phase, placed, joined>>

Init == /\ tree = <<>> /\ n = 0 /\ edges = <<>> /\ joined = {} /\ placed = <<>> /\ directed \in (IF What = "graph" THEN BOOLEAN ELSE {TRUE}) /\ phase = "grow"
Sprout == What = "tree" /\ phase = "grow" /\ Len(tree) < MaxNodes /\ \E d \in 1..6, s \in Sizes : LET t == Append(tree, [d |-> d, s |-> s]) IN Wellformed(t) /\ tree' = t /\ UNCHANGED <<n, edges, directed, phase, placed, joined>>
AddNode == What = "graph" /\ phase = "grow" /\ edges = <<>> /\ n < MaxNodes /\ n' = n + 1 /\ UNCHANGED <<tree, edges, directed, phase, placed, joined>>
AddEdge == What = "graph" /\ phase = "grow" /\ n >= MinNodes /\ n > 0 /\ Len(edges) < MaxEdges
           /\ \E a \in 0..n, b \in 0..n : (Nowhere \/ a * b # 0) /\ edges' = Append(edges, <<a, b>>) /\ UNCHANGED <<tree, n, directed, phase, placed, joined>>
(* Design: a small graph or tree is drawn on a coarse grid by all placements the rule allows. *)
G == IF What = "tree" THEN [size |-> [i \in 1..Len(tree) |-> <<1, 1>>], up |-> Ups(tree), depth |-> [i \in 1..Len(tree) |-> tree[i].d], edges |-> Branches(tree), acyclic |-> TRUE]
     ELSE [size |-> [i \in 1..n |-> <<1, 1>>], up |-> <<>>, depth |-> <<>>, edges |-> edges, acyclic |-> ~Cyclic(n, edges, TRUE)]
Rule == IF What = "tree" THEN (IF directed THEN "layered" ELSE "compact") ELSE IF directed THEN "down" ELSE "right"
Begin == Grid > 0 /\ phase = "grow" /\ phase' = "draw" /\ placed' = [i \in 1..Len(G.size) |-> <<>>] /\ UNCHANGED <<tree, n, edges, directed, joined>>
Draw == /\ phase = "draw" /\ UNCHANGED <<tree, n, edges, directed, phase>>
        /\ \E i \in 1..Len(G.size) : (\A j \in 1..(i - 1) : Placed(j)) /\ \E x \in 1..Grid, y \in 1..Grid : Place(G, Rule, i, [x |-> x, y |-> y, w |-> 1, h |-> 1])
Next == Sprout \/ AddNode \/ AddEdge \/ Begin \/ Draw
Spec == Init /\ [][Next]_vars

EmitTree == (What = "tree" /\ Len(tree) >= MinNodes /\ tree # <<>>) =>
  PrintT("@" \o ToJson([tree |-> tree, up |-> Ups(tree), leaves |-> Cardinality(Leaves(tree)), height |-> Height(tree)]))
EmitGraph == (What = "graph" /\ n >= MinNodes /\ Len(edges) >= MinEdges) =>
  PrintT("@" \o ToJson([n |-> n, edges |-> edges, directed |-> directed, near |-> [v \in 1..n |-> Neighbours(edges, v, directed)], connected |-> Connected(n, edges),
                        cyclic |-> Cyclic(n, edges, directed), acyclic |-> ~Cyclic(n, edges, TRUE)]))

(* ---- design properties ---- *)
Rooted == tree # <<>> => /\ Cardinality(Leaves(tree)) >= 1
                         /\ \A i \in 2..Len(tree) : Up(tree, i) \in 1..(i - 1)
                         /\ Len(Branches(tree)) = Len(tree) - 1
(* A tree taken as a graph is connected and has no cycle; one more edge closes one. *)
TreeIsTree == tree # <<>> => LET es == Branches(tree) IN
  /\ Connected(Len(tree), es) /\ ~Cyclic(Len(tree), es, TRUE) /\ ~Cyclic(Len(tree), es, FALSE)
  /\ \A i \in 1..Len(tree) : Cyclic(Len(tree), Append(es, <<i, 1, 0>>), TRUE)
(* There is a cycle exactly where some list of nodes runs around one. *)
Lists == UNION {[1..k -> 1..n] : k \in 1..n}
CyclesExist == What = "graph" => (Cyclic(n, edges, directed) <=> \E c \in Lists : Round(edges, c, directed))
Handshake == What = "graph" /\ ~directed /\ (\A k \in 1..Len(edges) : Known(edges[k])) =>
  LET deg[v \in 0..n] == IF v = 0 THEN 0 ELSE deg[v - 1] + Len(Neighbours(edges, v, FALSE)) IN deg[n] = 2 * Len(edges)
NoOverlap == phase = "draw" => \A i, j \in 1..Len(placed) : i # j /\ Placed(i) /\ Placed(j) => Apart(Box(i), Box(j))
(* In a layered or compact drawing every node stands below all the nodes it descends from. *)
Lower == (phase = "draw" /\ What = "tree") => \A i \in 2..Len(tree) : Placed(i) => Box(i).y > Box(Up(tree, i)).y
=============================================================================
