------------------------------- MODULE Pratt --------------------------------
(***************************************************************************)
(* Operator-precedence expressions.  A table gives each token kind a level *)
(* and associativity as infix, a level as prefix, a level as postfix       *)
(* operator.  Parse is the meaning of a token sequence; Grouped states,    *)
(* without reference to how it is found, when a tree groups its operands   *)
(* as the table declares.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Operand == 3
Open == 9
Close == 10
Kind(T, i) == IF i <= Len(T) THEN T[i] ELSE -1
HasInfix(B, k) == k \in DOMAIN B.infix /\ B.infix[k].a # "-"
HasPrefix(B, k) == k \in DOMAIN B.prefix /\ B.prefix[k] > 0
HasPostfix(B, k) == k \in DOMAIN B.postfix /\ B.postfix[k] > 0
RightMin(B, k) == IF B.infix[k].a = "R" THEN B.infix[k].p ELSE B.infix[k].p + 1

NoTree == [t |-> "none"]
RECURSIVE Parse(_, _, _, _), Prefix(_, _, _), Loop(_, _, _, _, _), Primary(_, _, _)
Primary(T, B, i) ==
    IF Kind(T, i) = Operand THEN [pos |-> i + 1, e |-> [t |-> "leaf", at |-> i]]
    ELSE IF Kind(T, i) = Open
         THEN LET r == Parse(T, B, i + 1, 0)
                  closed == Kind(T, r.pos) = Close
              IN [pos |-> IF closed THEN r.pos + 1 ELSE r.pos, e |-> [t |-> "group", at |-> i, in |-> r.e, close |-> IF closed THEN r.pos ELSE 0]]
         ELSE [pos |-> i, e |-> [t |-> "missing"]]
Prefix(T, B, i) ==
    LET k == Kind(T, i) IN
    IF HasPrefix(B, k) THEN LET r == Parse(T, B, i + 1, B.prefix[k]) IN [pos |-> r.pos, e |-> [t |-> "pre", op |-> i, k |-> k, r |-> r.e]]
    ELSE Primary(T, B, i)
Loop(T, B, i, min, left) ==
    LET k == Kind(T, i) IN
    IF HasPostfix(B, k) THEN IF B.postfix[k] < min THEN [pos |-> i, e |-> left] ELSE Loop(T, B, i + 1, min, [t |-> "post", op |-> i, k |-> k, l |-> left])
    ELSE IF HasInfix(B, k) /\ B.infix[k].p >= min
         THEN LET r == Parse(T, B, i + 1, RightMin(B, k)) IN Loop(T, B, r.pos, min, [t |-> "bin", op |-> i, k |-> k, l |-> left, r |-> r.e])
         ELSE [pos |-> i, e |-> left]
Parse(T, B, i, min) == LET p == Prefix(T, B, i) IN Loop(T, B, p.pos, min, p.e)

(* the tree as in MODULE Parsing: token = its index, node = -kind, contents, 0 *)
RECURSIVE Flat(_)
Flat(e) == CASE e.t = "leaf" -> <<-201, e.at, 0>>
             [] e.t = "group" -> <<-202, e.at>> \o Flat(e.in) \o (IF e.close = 0 THEN <<>> ELSE <<e.close>>) \o <<0>>
             [] e.t = "missing" -> <<-203, 0>>
             [] e.t = "pre" -> <<-204, e.op>> \o Flat(e.r) \o <<0>>
             [] e.t = "post" -> <<-205>> \o Flat(e.l) \o <<e.op, 0>>
             [] e.t = "bin" -> <<-206>> \o Flat(e.l) \o <<e.op>> \o Flat(e.r) \o <<0>>

(* The declarative reading. LeftEdge: operators that stand open to the left of a tree; RightEdge: the levels up to which trees open to the right would take an operator. *)
RECURSIVE LeftEdge(_, _), RightEdge(_, _), Grouped(_, _)
LeftEdge(B, e) == CASE e.t = "bin" -> {B.infix[e.k].p} \cup LeftEdge(B, e.l)
                    [] e.t = "post" -> {B.postfix[e.k]} \cup LeftEdge(B, e.l)
                    [] OTHER -> {}
RightEdge(B, e) == CASE e.t = "bin" -> {RightMin(B, e.k)} \cup RightEdge(B, e.r)
                     [] e.t = "pre" -> {B.prefix[e.k]} \cup RightEdge(B, e.r)
                     [] OTHER -> {}
AllAtLeast(S, m) == \A x \in S : x >= m
AllAbove(S, p) == \A x \in S : x > p
Grouped(B, e) == CASE e.t = "bin" -> Grouped(B, e.l) /\ Grouped(B, e.r) /\ AllAbove(RightEdge(B, e.l), B.infix[e.k].p) /\ AllAtLeast(LeftEdge(B, e.r), RightMin(B, e.k))
                   [] e.t = "post" -> Grouped(B, e.l) /\ AllAbove(RightEdge(B, e.l), B.postfix[e.k])
                   [] e.t = "pre" -> Grouped(B, e.r) /\ AllAtLeast(LeftEdge(B, e.r), B.prefix[e.k])
                   [] e.t = "group" -> Grouped(B, e.in)
                   [] OTHER -> TRUE
(* nothing more could have been taken *)
Longest(T, B, r, min) == LET k == Kind(T, r.pos) IN
    /\ HasPostfix(B, k) => B.postfix[k] < min /\ AllAbove(RightEdge(B, r.e), B.postfix[k])
    /\ HasInfix(B, k) /\ ~HasPostfix(B, k) => B.infix[k].p < min /\ AllAbove(RightEdge(B, r.e), B.infix[k].p)

(* a chain of operators declared non-associative has no declared grouping *)
RECURSIVE Chained(_, _)
Chained(B, e) == CASE e.t = "bin" -> Chained(B, e.l) \/ Chained(B, e.r) \/ (B.infix[e.k].a = "N" /\ e.l.t = "bin" /\ B.infix[e.l.k].p = B.infix[e.k].p)
                   [] e.t = "post" -> Chained(B, e.l)
                   [] e.t = "pre" -> Chained(B, e.r)
                   [] e.t = "group" -> Chained(B, e.in)
                   [] OTHER -> FALSE
=============================================================================
