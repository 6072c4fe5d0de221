------------------------------- MODULE Editor -------------------------------
(* The files an editor has open, and what its requests report about them.
   A file is a sequence of items: a name, a reference, the opening of a definition (with or without a name of its own) or of a block,
   filler, and the mark that closes what was opened last. What is still open at the end of the file ends there. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Files, Names, Modules
VARIABLE files            \* the content of every file that exists
Absent == <<[k |-> "absent", x |-> ""]>>

N(x) == [k |-> "n", x |-> x]
R(x) == [k |-> "r", x |-> x]
D(x) == [k |-> "d", x |-> x]
Anon == [k |-> "a", x |-> ""]
Blk == [k |-> "b", x |-> ""]
Fill == [k |-> "w", x |-> ""]
End == [k |-> "e", x |-> ""]
Opens(t) == t.k \in {"d", "a", "b"}
Defines(t) == t.k \in {"d", "a"}

RECURSIVE Depth(_, _)
Depth(c, i) == IF i = 0 THEN 0 ELSE Depth(c, i - 1) + (IF Opens(c[i]) THEN 1 ELSE IF c[i].k = "e" THEN -1 ELSE 0)
Valid(c) == \A i \in 1..Len(c) : Depth(c, i) >= 0

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
Closing(c, i) == LET e == {j \in (i + 1)..Len(c) : Depth(c, j) < Depth(c, i)} IN IF e = {} THEN Len(c) ELSE Least(e)
Inside(c, i) == {o \in 1..(i - 1) : Opens(c[o]) /\ i <= Closing(c, o)}      \* what item i stands in
Parent(c, i) == IF Inside(c, i) = {} THEN 0 ELSE Most(Inside(c, i))
Top(c, i) == IF Inside(c, i) = {} THEN i ELSE Least(Inside(c, i))
Span(c, i) == <<i - 1, IF Opens(c[i]) THEN Closing(c, i) ELSE i>>

(* ---- symbols ---- *)
Own(c, i) == LET direct == {j \in (i + 1)..Len(c) : c[j].k = "n" /\ Parent(c, j) = i} IN
  IF c[i].k = "d" THEN c[i].x ELSE IF direct = {} THEN "?" ELSE c[Least(direct)].x
Box(c, i) == LET o == {j \in Inside(c, i) : Defines(c[j])} IN IF o = {} THEN "" ELSE Own(c, Most(o))
Symbol(c, i) == [name |-> Own(c, i), box |-> Box(c, i), s |-> Span(c, i)[1], e |-> Span(c, i)[2]]
RECURSIVE From(_, _)
From(c, i) == IF i > Len(c) THEN <<>> ELSE (IF Defines(c[i]) THEN <<Symbol(c, i)>> ELSE <<>>) \o From(c, i + 1)
Symbols(c) == From(c, 1)
Full(s) == IF s.box = "" THEN s.name ELSE s.box \o "::" \o s.name
(* Everything the files fs define. *)
Live(fs) == {f \in Files : fs[f] # Absent}
All(fs) == UNION {LET y == Symbols(fs[f]) IN {<<f, y[k]>> : k \in 1..Len(y)} : f \in Live(fs)}
Holds(s, q) == CASE q = "" -> TRUE [] q = "::" -> s.box # "" [] q \in Names -> s.name = q \/ s.box = q [] OTHER -> Full(s) = q
Search(fs, q) == {p \in All(fs) : Holds(p[2], q)}

(* ---- references and definitions ---- *)
RECURSIVE Uses(_, _, _)
Uses(c, x, i) == IF i > Len(c) THEN <<>> ELSE (IF c[i].k \in {"n", "r", "d"} /\ c[i].x = x THEN <<i>> ELSE <<>>) \o Uses(c, x, i + 1)
Defs(fs, x) == {p \in All(fs) : Full(p[2]) = x}
Definition(fs, f, i) ==
  LET c == fs[f]  t == Top(c, i) IN
    IF c[t].k \in {"n", "w"} THEN [kind |-> "here", at |-> t]
    ELSE IF c[t].k = "r" THEN IF Defs(fs, c[t].x) # {} THEN [kind |-> "symbol", at |-> c[t].x] ELSE IF c[t].x \in Modules THEN [kind |-> "module", at |-> c[t].x] ELSE [kind |-> "none", at |-> 0]
    ELSE [kind |-> "inner", at |-> i]

(* ---- editing ---- *)
Init == files = [f \in Files |-> Absent]
Write(f, c) == Valid(c) /\ files' = [files EXCEPT ![f] = c]
Drop(f) == files[f] # Absent /\ files' = [files EXCEPT ![f] = Absent]
Insert(f, p, t) == files[f] # Absent /\ Write(f, SubSeq(files[f], 1, p) \o <<t>> \o SubSeq(files[f], p + 1, Len(files[f])))
Delete(f, p) == files[f] # Absent /\ Write(f, SubSeq(files[f], 1, p - 1) \o SubSeq(files[f], p + 1, Len(files[f])))
Move(f, g) == files[f] # Absent /\ g # f /\ files' = [files EXCEPT ![g] = files[f], ![f] = Absent]
=============================================================================
