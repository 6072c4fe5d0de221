------------------------------ MODULE Parsing -------------------------------
(***************************************************************************)
(* The parser's working state: a position in the token sequence and the    *)
(* pending tree, a stack of finished pieces.  A piece is written as a      *)
(* sequence of integers: a token is its (positive) index; a node of kind k *)
(* is -k, its pieces, 0.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Ignored == {1, 2}         \* white space and comments
Eof == 0

Kind(T, i) == IF i >= 1 /\ i <= Len(T) THEN T[i] ELSE -1     \* -1: past the last token

RECURSIVE SkipFrom(_, _, _)
(* skipping trivia: the ignored tokens at the position are pushed and passed *)
SkipFrom(T, i, st) == IF Kind(T, i) \in Ignored THEN SkipFrom(T, i + 1, Append(st, <<i>>)) ELSE [pos |-> i, st |-> st]

Begin(T) == SkipFrom(T, 1, <<>>)
(* Each operation maps a state to a state. *)
Bump(T, s) == IF Kind(T, s.pos) = -1 THEN s ELSE SkipFrom(T, s.pos + 1, Append(s.st, <<s.pos>>))
Advance(T, s) == SkipFrom(T, s.pos + 1, s.st)
Skip(T, s) == SkipFrom(T, s.pos, s.st)
Eat(T, s, k) == IF Kind(T, s.pos) = k THEN Bump(T, s) ELSE s
RECURSIVE Until(_, _, _)
Until(T, s, ks) == IF s.pos > Len(T) \/ Kind(T, s.pos) \in ks THEN s ELSE Until(T, Advance(T, s), ks)

RECURSIVE Concat(_, _, _)
Concat(st, a, b) == IF a > b THEN <<>> ELSE st[a] \o Concat(st, a + 1, b)
Node(st, from, k) == <<-k>> \o Concat(st, from + 1, Len(st)) \o <<0>>
Finish(s, sp, k) == [s EXCEPT !.st = Append(SubSeq(s.st, 1, sp), Node(s.st, sp, k))]
Back(s, m) == [pos |-> m.pos, st |-> SubSeq(s.st, 1, m.sp)]
Mark(s) == [pos |-> s.pos, sp |-> Len(s.st)]

IsNode(p) == p[1] < 0
Leaves(p) == SelectSeq(p, LAMBDA x : x > 0)

(* An error is about the token at the position, or about the end of the text; recording it changes nothing else. *)
Places == {"here", "end"}
ErrorAt(T, s, where) == IF where = "here" THEN s.pos ELSE Len(T) + 1

(* what the parser sees ahead *)
RECURSIVE NonTrivia(_, _, _)
NonTrivia(T, i, n) == IF i > Len(T) THEN -1 ELSE IF T[i] \in Ignored THEN NonTrivia(T, i + 1, n) ELSE IF n = 0 THEN T[i] ELSE NonTrivia(T, i + 1, n - 1)
=============================================================================
