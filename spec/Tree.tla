-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* Syntax trees.  A tree is the sequence of its elements in reading order: *)
(* each has a depth, and leaves (tokens) have a length in bytes.  Element  *)
(* 1 is the root node.  Everything navigation can return -- spans,         *)
(* children, siblings, ancestors, the element at an offset, traversal      *)
(* order, cursor movements -- is a function of this sequence.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Root == [leaf |-> FALSE, len |-> 0, depth |-> 0]
MayFollow(t, d) == d >= 1 /\ d <= t[Len(t)].depth + (IF t[Len(t)].leaf THEN 0 ELSE 1)

RECURSIVE SumLeaves(_, _, _)
SumLeaves(t, i, j) == IF i > j THEN 0 ELSE (IF t[i].leaf THEN t[i].len ELSE 0) + SumLeaves(t, i + 1, j)

(* last element of the subtree of i *)
RECURSIVE Last(_, _)
Last(t, i) == LET RECURSIVE go(_)
                  go(k) == IF k < Len(t) /\ t[k + 1].depth > t[i].depth THEN go(k + 1) ELSE k
              IN go(i)
Width(t, i) == SumLeaves(t, i, Last(t, i))
Start(t, i) == SumLeaves(t, 1, i - 1)
End(t, i) == Start(t, i) + Width(t, i)

Parent(t, i) == IF i = 1 THEN 0 ELSE CHOOSE p \in 1..(i - 1) : t[p].depth = t[i].depth - 1 /\ \A k \in (p + 1)..(i - 1) : t[k].depth >= t[i].depth
Children(t, i) == SelectSeq([k \in 1..Len(t) |-> k], LAMBDA k : k > 1 /\ Parent(t, k) = i)
NextSibling(t, i) == LET n == Last(t, i) + 1 IN IF n <= Len(t) /\ i # 1 /\ t[n].depth = t[i].depth THEN n ELSE 0
FirstChild(t, i) == IF ~t[i].leaf /\ i < Len(t) /\ t[i + 1].depth = t[i].depth + 1 THEN i + 1 ELSE 0

(* the child / leaf whose span contains byte o; 0 if none: empty elements contain no byte *)
ChildAt(t, i, o) == LET c == {k \in 2..Len(t) : Parent(t, k) = i /\ Start(t, k) <= o /\ o < End(t, k)} IN IF c = {} THEN 0 ELSE CHOOSE k \in c : TRUE
RECURSIVE LeafAt(_, _, _)
LeafAt(t, i, o) == LET k == ChildAt(t, i, o) IN IF k = 0 \/ t[k].leaf THEN k ELSE LeafAt(t, k, o)

(* Cursor movements: 0 = the movement is refused and the cursor stays. *)
Into(t, i) == FirstChild(t, i)
Over(t, i) == NextSibling(t, i)
Out(t, i) == Parent(t, i)
(* the next element in reading order; the next one outside the subtree of i; 0 = the traversal is finished *)
Step(t, i) == IF i < Len(t) THEN i + 1 ELSE 0
Skip(t, i) == IF Last(t, i) < Len(t) THEN Last(t, i) + 1 ELSE 0
=============================================================================
