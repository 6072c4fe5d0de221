------------------------------ MODULE Scanning ------------------------------
(* The shared scanning helpers of a lexer: from a position in a text a helper either takes a piece of the text or declines.
   A text is a sequence of letters; position p lies before letter p + 1. *)
EXTENDS Integers, Sequences, FiniteSets

Space == {"s", "t", "n", "r"}            \* blank, tab, line feed, carriage return
Wide == {"U"}                            \* white space beyond those four
Digit == {"9"}
Hex == {"9", "f"}
WordStart == {"a", "f", "_"}
Word == WordStart \cup Digit
Class(c) == CASE c = "space" -> Space [] c = "wide" -> Space \cup Wide [] c = "digit" -> Digit [] c = "hex" -> Hex
              [] c = "word" -> Word [] c = "foreign" -> {"E"} \cup Word [] c = "blank" -> {"s", "t"} [] OTHER -> {c}

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
At(t, p, w) == p + Len(w) <= Len(t) /\ \A k \in 1..Len(w) : t[p + k] = w[k]
Take(q) == [ok |-> TRUE, end |-> q]
Decline(p) == [ok |-> FALSE, end |-> p]

(* The longest run of letters of C from p, and the run of letters outside C. *)
RunEnd(t, p, C) == LET stop == {q \in p..(Len(t) - 1) : t[q + 1] \notin C} IN IF stop = {} THEN Len(t) ELSE Least(stop)
Until(t, p, C) == LET stop == {q \in p..(Len(t) - 1) : t[q + 1] \in C} IN IF stop = {} THEN Len(t) ELSE Least(stop)

White(t, p, C) == IF RunEnd(t, p, C) > p THEN Take(RunEnd(t, p, C)) ELSE Decline(p)
Ident(t, p) == IF p < Len(t) /\ t[p + 1] \in WordStart THEN Take(RunEnd(t, p + 1, Word)) ELSE Decline(p)
Line(t, p, m) == IF m # <<>> /\ At(t, p, m) THEN Take(Until(t, p + Len(m), {"n"})) ELSE Decline(p)

(* A block ends with the first end mark after its start mark, or with the text. *)
Block(t, p, a, z) ==
  IF a = <<>> \/ ~At(t, p, a) THEN Decline(p)
  ELSE LET ends == {q \in (p + Len(a))..Len(t) : z # <<>> /\ At(t, q, z)} IN Take(IF ends = {} THEN Len(t) ELSE Least(ends) + Len(z))
(* A nesting block ends with the end mark that balances its start mark. *)
RECURSIVE Balance(_, _, _, _, _)
Balance(t, p, depth, a, z) ==
  IF depth = 0 \/ p >= Len(t) THEN p
  ELSE IF At(t, p, a) THEN Balance(t, p + Len(a), depth + 1, a, z)
  ELSE IF z # <<>> /\ At(t, p, z) THEN Balance(t, p + Len(z), depth - 1, a, z)
  ELSE Balance(t, p + 1, depth, a, z)
Nested(t, p, a, z) == IF a = <<>> \/ ~At(t, p, a) THEN Decline(p) ELSE Take(Balance(t, p + Len(a), 1, a, z))
Comment(t, p, h) ==
  IF Line(t, p, h.line).ok THEN Line(t, p, h.line)
  ELSE IF h.nested THEN Nested(t, p, h.start, h.end) ELSE Block(t, p, h.start, h.end)

(* A string ends with the next quote of its kind that is not escaped, or with the text. *)
RECURSIVE Shut(_, _, _, _)
Shut(t, p, quote, escape) ==
  IF p >= Len(t) THEN Len(t)
  ELSE IF t[p + 1] = escape THEN Shut(t, p + 2, quote, escape)
  ELSE IF t[p + 1] = quote THEN p + 1
  ELSE Shut(t, p + 1, quote, escape)
Quoted(t, p, Q, escape) == IF p < Len(t) /\ \E k \in 1..Len(Q) : Q[k] = t[p + 1] THEN Take(Shut(t, p + 1, t[p + 1], escape)) ELSE Decline(p)

Tokens == {"white", "ident", "line", "block", "comment", "string"}     \* these record a token when they take a piece
Scan(h, t, p) ==
  CASE h.op = "white" -> White(t, p, Class(h.class))
    [] h.op = "ident" -> Ident(t, p)
    [] h.op = "line" -> Line(t, p, h.line)
    [] h.op = "block" -> Block(t, p, h.start, h.end)
    [] h.op = "comment" -> Comment(t, p, h)
    [] h.op = "string" -> Quoted(t, p, h.quotes, h.escape)
    [] h.op \in {"skip", "chars", "bytes", "count"} -> Take(RunEnd(t, p, Class(h.class)))
    [] h.op = "until" -> Take(Until(t, p, Class(h.class)))
    [] h.op = "find" -> IF Until(t, p, Class(h.class)) < Len(t) THEN Take(Until(t, p, Class(h.class))) ELSE Decline(p)

(* ---- the helpers a lexer may be given ---- *)
W(c) == [op |-> "white", class |-> c]
M(o, c) == [op |-> o, class |-> c]
C(l, a, z, n) == [op |-> "comment", line |-> l, start |-> a, end |-> z, nested |-> n]
L(l) == [op |-> "line", line |-> l]
B(a, z) == [op |-> "block", start |-> a, end |-> z]
Q(q, e) == [op |-> "string", quotes |-> q, escape |-> e]

Words == << W("space"), W("wide"), [op |-> "ident"],
            M("skip", "space"), M("skip", "digit"), M("skip", "word"), M("until", "n"), M("until", "s"),
            M("chars", "wide"), M("chars", "foreign"), M("chars", "digit"), M("bytes", "hex"), M("bytes", "space"),
            M("count", "space"), M("count", "digit"), M("count", "hex"), M("count", "word"), M("count", "blank"), M("count", "s"),
            M("find", "n"), M("find", "t"), M("find", "space") >>
S1 == <<"/">>
S2 == <<"/", "/">>
Open == <<"/", "*">>
Close == <<"*", "/">>
Comments == << L(S1), L(S2), L(<<"*", "/", "*">>), B(Open, Close), B(Open, <<"*">>), B(<<"*">>, <<"*">>), B(S2, <<"*", "*", "/">>), B(<<"*", "*">>, <<"*", "*">>),
               C(S2, Open, Close, FALSE), C(S2, Open, Close, TRUE), C(<<>>, Open, Close, TRUE), C(S1, Open, Close, FALSE), C(S2, <<>>, <<>>, TRUE), C(<<>>, <<"/">>, <<"*">>, TRUE),
               C(<<>>, <<"*", "*">>, <<"*", "/">>, FALSE), C(<<>>, <<"/">>, <<"*", "*", "/">>, TRUE), C(<<"*">>, S2, <<>>, FALSE) >>
Strings == << Q(<<"q">>, "b"), Q(<<"p">>, "b"), Q(<<"q", "p">>, "b"), Q(<<"q">>, ""), Q(<<"p", "q">>, "") >>
Mixed == << W("space"), W("wide"), C(S2, Open, Close, TRUE), C(S2, Open, Close, FALSE), Q(<<"q">>, "b"), Q(<<"q">>, ""), [op |-> "ident"], M("skip", "digit"), L(S1), B(Open, Close),
            M("chars", "foreign"), M("bytes", "space"), M("until", "n"), M("skip", "word") >>
Helpers(k) == CASE k = "words" -> Words [] k = "comments" -> Comments [] k = "strings" -> Strings [] k = "mixed" -> Mixed
=============================================================================
