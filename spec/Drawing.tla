------------------------------ MODULE Drawing ------------------------------
(* Trees and graphs and the drawings made of them.  A tree is the sequence of its nodes in reading order, each with its
   depth (the root has depth 1); a graph has nodes 1..n and a sequence of edges, some of which may lead nowhere (0).
   A drawing places boxes one after the other and then joins them by lines.  Boxes are [x, y, w, h]. *)
EXTENDS Integers, Sequences, FiniteSets

(* ---- trees ---- *)
Wellformed(t) == t = <<>> \/ (t[1].d = 1 /\ \A i \in 2..Len(t) : t[i].d \in 2..(t[i - 1].d + 1))
Greatest(S) == CHOOSE x \in S : \A y \in S : x >= y
Up(t, i) == IF t[i].d = 1 THEN 0 ELSE Greatest({j \in 1..(i - 1) : t[j].d = t[i].d - 1})
Ups(t) == [i \in 1..Len(t) |-> Up(t, i)]
Branches(t) == [k \in 1..(Len(t) - 1) |-> <<Up(t, k + 1), k + 1, 0>>]     \* its edges, in reading order
Leaves(t) == {i \in 1..Len(t) : \A j \in 1..Len(t) : Up(t, j) # i}
Height(t) == Greatest({t[i].d : i \in 1..Len(t)})

(* ---- graphs ---- *)
Known(e) == e[1] # 0 /\ e[2] # 0
RECURSIVE Ends(_, _, _, _)
Ends(es, v, directed, k) ==
  IF k > Len(es) THEN <<>>
  ELSE (IF es[k][1] = v THEN <<es[k][2]>> ELSE <<>>) \o (IF ~directed /\ es[k][2] = v THEN <<es[k][1]>> ELSE <<>>) \o Ends(es, v, directed, k + 1)
Neighbours(es, v, directed) == Ends(es, v, directed, 1)
RECURSIVE Reach(_, _, _)
Reach(es, S, both) ==
  LET T == S \cup {es[k][2] : k \in {k \in 1..Len(es) : Known(es[k]) /\ es[k][1] \in S}}
             \cup (IF both THEN {es[k][1] : k \in {k \in 1..Len(es) : Known(es[k]) /\ es[k][2] \in S}} ELSE {})
  IN IF T = S THEN S ELSE Reach(es, T, both)
Connected(n, es) == n = 0 \/ Reach(es, {1}, TRUE) = 1..n
Parts(n, es) == Cardinality({Reach(es, {v}, TRUE) : v \in 1..n})
After(es, v) == Reach(es, {es[k][2] : k \in {k \in 1..Len(es) : Known(es[k]) /\ es[k][1] = v}}, FALSE)
Cyclic(n, es, directed) ==
  IF directed THEN \E v \in 1..n : v \in After(es, v)
  ELSE Cardinality({k \in 1..Len(es) : Known(es[k])}) > n - Parts(n, es)
(* A list of nodes runs around a cycle: they differ, and edges lead from each to the next and from the last to the first.
   Without directions an edge cannot be gone back on the way it came. *)
Joins(es, k, a, b, directed) == (es[k][1] = a /\ es[k][2] = b) \/ (~directed /\ es[k][1] = b /\ es[k][2] = a)
Round(es, c, directed) ==
  /\ c # <<>> /\ \A i, j \in 1..Len(c) : i # j => c[i] # c[j]
  /\ \A i \in 1..Len(c) : \E k \in 1..Len(es) : Joins(es, k, c[i], c[(i % Len(c)) + 1], directed)
  /\ (Len(c) = 2 /\ ~directed) => \E k, l \in 1..Len(es) : k # l /\ Joins(es, k, c[1], c[2], directed) /\ Joins(es, l, c[1], c[2], directed)

(* ---- plane figures: boxes, points <<x, y>> and the maps [a, b, c, d, e, f] of the plane ---- *)
Holds(b, p) == p[1] \in b.x..(b.x + b.w) /\ p[2] \in b.y..(b.y + b.h)
Touch(a, b) == ~(a.x + a.w < b.x \/ b.x + b.w < a.x \/ a.y + a.h < b.y \/ b.y + b.h < a.y)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Hull(a, b) == LET x == Min(a.x, b.x) y == Min(a.y, b.y) IN [x |-> x, y |-> y, w |-> Max(a.x + a.w, b.x + b.w) - x, h |-> Max(a.y + a.h, b.y + b.h) - y]
Image(m, p) == <<m.a * p[1] + m.c * p[2] + m.e, m.b * p[1] + m.d * p[2] + m.f>>

(* ---- drawings ---- *)
VARIABLES placed, joined      \* the boxes placed so far, by node (<<>>: not yet), and the set of edges joined
Apart(a, b) == a.x + a.w <= b.x \/ b.x + b.w <= a.x \/ a.y + a.h <= b.y \/ b.y + b.h <= a.y
Below(a, b) == a.y + a.h <= b.y
RightOf(a, b) == a.x + a.w <= b.x
Placed(i) == placed[i] # <<>>
Box(i) == placed[i][1]
Near(a, b) == a - b \in -2..2
Middle(b) == <<b.x + (b.w \div 2), b.y + (b.h \div 2)>>
(* How box b of node i has to stand to the box c of node j placed already, under the rule of a layout.
   g is the drawn input: g.up parents, g.depth depths, g.edges, g.acyclic. *)
Descends(g, i, j) == g.up[i] = j
Leads(g, a, b) == \E k \in 1..Len(g.edges) : g.edges[k][1] = a /\ g.edges[k][2] = b
Stands(g, rule, i, b, j, c) ==
  CASE rule = "free" -> TRUE
    [] rule = "layered" -> /\ Apart(b, c)
                           /\ g.depth[i] = g.depth[j] => b.y = c.y
                           /\ g.depth[i] > g.depth[j] => Below(c, b)
                           /\ g.depth[i] < g.depth[j] => Below(b, c)
                           /\ g.depth[i] = g.depth[j] => IF i < j THEN RightOf(b, c) ELSE RightOf(c, b)
    [] rule = "compact" -> /\ Apart(b, c)
                           /\ g.up[i] = j => Below(c, b)
                           /\ g.up[j] = i => Below(b, c)
                           /\ g.up[i] = g.up[j] => IF i < j THEN RightOf(b, c) ELSE RightOf(c, b)
    [] rule = "grid" -> Apart(b, c)
    [] rule \in {"down", "up", "right", "left"} ->
         LET Next1(p, q) == CASE rule = "down" -> Below(p, q) [] rule = "up" -> Below(q, p) [] rule = "right" -> RightOf(p, q) [] OTHER -> RightOf(q, p) IN
           /\ Apart(b, c)
           /\ g.acyclic => (Leads(g, j, i) => Next1(c, b)) /\ (Leads(g, i, j) => Next1(b, c))
    [] OTHER -> FALSE
Fits(g, rule, i, b) == \A j \in 1..Len(g.size) : j # i /\ Placed(j) => Stands(g, rule, i, b, j, Box(j))
CanPlace(g, rule, i, b) == i \in 1..Len(g.size) /\ ~Placed(i) /\ b.w = g.size[i][1] /\ b.h = g.size[i][2] /\ Fits(g, rule, i, b)
Place(g, rule, i, b) == CanPlace(g, rule, i, b) /\ placed' = [placed EXCEPT ![i] = <<b>>] /\ UNCHANGED joined
(* A line is <<from, to, label, x1, y1, x2, y2>>; in a picture lines do not say what they join: from = to = -1.
   joined is the set of the edges that have their line. *)
Marks(g, l, k) ==
  LET e == g.edges[k] IN
  /\ l[3] = e[3] /\ (l[1] = e[1] \/ l[1] = -1) /\ (l[2] = e[2] \/ l[2] = -1)
  /\ Placed(e[1]) /\ Placed(e[2])
  /\ Near(l[4], Middle(Box(e[1]))[1]) /\ Near(l[5], Middle(Box(e[1]))[2]) /\ Near(l[6], Middle(Box(e[2]))[1]) /\ Near(l[7], Middle(Box(e[2]))[2])
CanJoin(g, l) == \E k \in (1..Len(g.edges)) \ joined : Marks(g, l, k)
Join(g, l) == CanJoin(g, l) /\ joined' = joined \cup {CHOOSE k \in (1..Len(g.edges)) \ joined : Marks(g, l, k)} /\ UNCHANGED placed
Complete(g) == joined = 1..Len(g.edges) /\ \A i \in 1..Len(g.size) : Placed(i)
\* the frame around the boxes touches them on all four sides
Covers(f, b) == f.x <= b.x + 1 /\ f.y <= b.y + 1 /\ f.x + f.w >= b.x + b.w - 1 /\ f.y + f.h >= b.y + b.h - 1
Framed(g, f) ==
  LET All == {Box(k) : k \in {k \in 1..Len(g.size) : Placed(k)}} IN
  \/ All = {}
  \/ /\ \A b \in All : Covers(f, b)
     /\ \E b \in All : Near(f.x, b.x)
     /\ \E b \in All : Near(f.y, b.y)
     /\ \E b \in All : Near(f.x + f.w, b.x + b.w)
     /\ \E b \in All : Near(f.y + f.h, b.y + b.h)
=============================================================================
