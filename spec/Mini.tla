-------------------------------- MODULE Mini --------------------------------
(***************************************************************************)
(* A small language: its tokens and its syntax trees as functions of the   *)
(* text.  Texts are sequences of letters (see Text); further letters are   *)
(*   q  a quotation mark    h  a number sign (comment to the end of line)  *)
(*   . = ; , { }  themselves                                               *)
(* A token is [k |-> kind, s |-> first position, e |-> end position].      *)
(***************************************************************************)
EXTENDS Text

EOF == 0   WS == 1    COMMENT == 2
ID == 10   KW == 11   NUM == 12   DOTS == 13   DOT == 14   EQQ == 15   EQ == 16   STR == 17
LB == 18   RB == 19   SEMI == 20  COMMA == 21  BAD == 22   ALT == 23
Trivia == {WS, COMMENT}

Letter == {"a", "b", "x"}
Blank == {" ", "n"}
At(t, i) == IF i < Len(t) THEN t[i + 1] ELSE ""
RECURSIVE SkipTo(_, _, _)      \* first position at or after i whose letter is x, or the end
SkipTo(t, i, x) == IF i >= Len(t) \/ t[i + 1] = x THEN i ELSE SkipTo(t, i + 1, x)
Word(t, i, j) == IF Slice(t, i, j) = <<"b">> THEN KW ELSE IF Slice(t, i, j) = <<"x">> THEN ALT ELSE ID
Number(t, i) ==      \* digits, with a fraction only when a digit follows the point
  LET j == RunFrom(t, i, Digit) IN
  IF At(t, j) = "." /\ At(t, j + 1) \in Digit THEN RunFrom(t, j + 1, Digit) ELSE j
Single(x) == CASE x = "." -> DOT [] x = "=" -> EQ [] x = "{" -> LB [] x = "}" -> RB [] x = ";" -> SEMI [] x = "," -> COMMA [] OTHER -> BAD
Token(t, i) ==       \* the token that starts at i < Len(t)
  LET c == t[i + 1]
      end == CASE c \in Blank -> RunFrom(t, i, Blank)
               [] c \in Letter -> RunFrom(t, i, Letter \cup Digit)
               [] c \in Digit -> Number(t, i)
               [] c = "q" -> LET z == SkipTo(t, i + 1, "q") IN IF z < Len(t) THEN z + 1 ELSE z
               [] c = "h" -> SkipTo(t, i, "n")
               [] MatchAt(t, i, <<".", ".", ".">>) -> i + 3
               [] MatchAt(t, i, <<"=", "=">>) -> i + 2
               [] OTHER -> i + 1
      kind == CASE c \in Blank -> WS [] c \in Letter -> Word(t, i, end) [] c \in Digit -> NUM [] c = "q" -> STR [] c = "h" -> COMMENT
                [] MatchAt(t, i, <<".", ".", ".">>) -> DOTS [] MatchAt(t, i, <<"=", "=">>) -> EQQ [] OTHER -> Single(c)
  IN [k |-> kind, s |-> i, e |-> end]
RECURSIVE LexFrom(_, _)
LexFrom(t, i) == IF i >= Len(t) THEN <<[k |-> EOF, s |-> i, e |-> i]>>
                 ELSE LET z == Token(t, i) IN <<z>> \o LexFrom(t, z.e)
Lex(t) == LexFrom(t, 0)

(* Resuming: the tokens kept from the previous text when the texts agree before `from`. *)
Resume(old, from, t, back) ==
  LET whole == {i \in DOMAIN old : old[i].e <= from /\ old[i].s < old[i].e}
      keep == IF Cardinality(whole) > back THEN Cardinality(whole) - back ELSE 0
      kept == SubSeq(old, 1, keep)
  IN kept \o LexFrom(t, IF keep = 0 THEN 0 ELSE kept[keep].e)

(* ---- trees: a leaf is <<kind, length>>, a node is [n |-> kind, c |-> children] ---- *)
ROOT == 1000  BLOCK == 1001  STMT == 1002  ATOM == 1003  COND == 1004  LIST == 1005  CALL == 1006  STRAY == 1007
Node(k, c) == [n |-> k, c |-> c]
Leaf(z) == [k |-> z.k, l |-> z.e - z.s]
Kind(z, i) == z[i].k                        \* kind of the current token; the last token is EOF
RECURSIVE NextAt(_, _)                      \* first token at or after i that is not trivia
NextAt(z, i) == IF z[i].k \in Trivia THEN NextAt(z, i + 1) ELSE i
Bump(z, i) == LET j == NextAt(z, i + 1) IN [i |-> j, c |-> [m \in 1..(j - i) |-> Leaf(z[i + m - 1])]]
Then(a, b) == [i |-> b.i, c |-> a.c \o b.c]
Nothing(i) == [i |-> i, c |-> <<>>]
Wrap(k, r) == [i |-> r.i, c |-> <<Node(k, r.c)>>]

Starts == {ID, NUM, STR, DOT, DOTS, BAD}    \* atoms
Atom(z, i) == Wrap(ATOM, Bump(z, i))
RECURSIVE Tail2(_, _)                       \* (, atom?)*
Tail2(z, r) == IF Kind(z, r.i) = COMMA
               THEN LET b == Then(r, Bump(z, r.i)) IN Tail2(z, IF Kind(z, b.i) \in Starts THEN Then(b, Atom(z, b.i)) ELSE b)
               ELSE r
Operand(z, i) == LET a == Atom(z, i) IN IF Kind(z, a.i) = COMMA THEN Wrap(LIST, Tail2(z, a)) ELSE a
RECURSIVE Ops(_, _)                         \* ((= | ==) operand? | operand)*
Ops(z, r) == IF Kind(z, r.i) \in {EQ, EQQ} THEN Ops(z, Then(r, Bump(z, r.i)))
             ELSE IF Kind(z, r.i) \in Starts THEN Ops(z, Then(r, Operand(z, r.i)))
             ELSE r
Stmt(z, i) == LET r == Ops(z, Nothing(i)) IN IF Kind(z, r.i) = SEMI THEN Then(r, Bump(z, r.i)) ELSE r
RECURSIVE Items(_, _, _), Item(_, _, _)
(* `call`: whether the token at i is the word "aa", which makes the statement a call. *)
Item(z, i, calls) ==
  CASE Kind(z, i) = LB ->
         LET r == Items(z, Bump(z, i), calls) IN
         Wrap(BLOCK, IF Kind(z, r.i) = RB THEN Then(r, Bump(z, r.i)) ELSE r)
    [] Kind(z, i) = KW ->
         LET b == Bump(z, i)
             one == IF Kind(z, b.i) \in {EOF, RB} THEN b ELSE Then(b, Item(z, b.i, calls))
             two == IF Kind(z, one.i) = ALT
                    THEN LET e == Then(one, Bump(z, one.i)) IN IF Kind(z, e.i) \in {EOF, RB} THEN e ELSE Then(e, Item(z, e.i, calls))
                    ELSE one
         IN Wrap(COND, two)
    [] Kind(z, i) \in Starts \cup {EQ, EQQ, SEMI} -> Wrap(IF i \in calls THEN CALL ELSE STMT, Stmt(z, i))
    [] OTHER -> Wrap(STRAY, Bump(z, i))     \* RB at the top, ALT, COMMA
Items(z, r, calls) == IF Kind(z, r.i) \in {EOF, RB} THEN r ELSE Items(z, Then(r, Item(z, r.i, calls)), calls)
RECURSIVE Top(_, _, _)
Top(z, r, calls) == IF Kind(z, r.i) = EOF THEN r ELSE Top(z, Then(r, Item(z, r.i, calls)), calls)
Tree(t) ==
  LET z == Lex(t)
      first == NextAt(z, 1)
      calls == {i \in DOMAIN z : Slice(t, z[i].s, z[i].e) = <<"a", "a">>}
  IN Node(ROOT, Top(z, [i |-> first, c |-> [m \in 1..(first - 1) |-> Leaf(z[m])]], calls).c)

(* The leaves of a tree, in order. *)
RECURSIVE Leaves(_), LeavesOf(_, _)
LeavesOf(c, m) == IF m > Len(c) THEN <<>> ELSE Leaves(c[m]) \o LeavesOf(c, m + 1)
Leaves(x) == IF "n" \in DOMAIN x THEN LeavesOf(x.c, 1) ELSE <<x>>
=============================================================================
