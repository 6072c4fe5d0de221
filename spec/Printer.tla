------------------------------ MODULE Printer ------------------------------
(* The document printer: a document of texts, possible line breaks, groups and indentation is laid out for a line width.
   The printer works through the document with a stack of pending parts; at each group it decides whether the group is
   laid out on one line or broken. "/" is a line break, ">" one step of indentation, " " a blank. *)
EXTENDS Integers, Sequences
VARIABLES work, out, col, cfg
vars == <<work, out, col, cfg>>

Nil == [k |-> "nil"]
Line == [k |-> "line"]
SoftLine == [k |-> "soft"]
SoftLineSpace == [k |-> "softsp"]
HardLine == [k |-> "hard"]
TextOf(s) == [k |-> "text", s |-> s]
Cat(ds) == [k |-> "cat", ds |-> ds]
Group(d) == [k |-> "group", d |-> d]
Indent(d) == [k |-> "indent", d |-> d]

RECURSIVE Hard(_), HardIn(_, _), FlatWidth(_), WidthTo(_, _), Texts(_), TextsTo(_, _), Hards(_), HardsTo(_, _)
HardIn(ds, n) == n > 0 /\ (Hard(ds[n]) \/ HardIn(ds, n - 1))
Hard(d) == CASE d.k = "hard" -> TRUE
             [] d.k \in {"group", "indent"} -> Hard(d.d)
             [] d.k = "cat" -> HardIn(d.ds, Len(d.ds))
             [] OTHER -> FALSE
\* how wide the document is on one line, its hard breaks left out
WidthTo(ds, n) == IF n = 0 THEN 0 ELSE WidthTo(ds, n - 1) + FlatWidth(ds[n])
FlatWidth(d) == CASE d.k = "text" -> Len(d.s)
                  [] d.k \in {"line", "softsp"} -> 1
                  [] d.k \in {"group", "indent"} -> FlatWidth(d.d)
                  [] d.k = "cat" -> WidthTo(d.ds, Len(d.ds))
                  [] OTHER -> 0
TextsTo(ds, n) == IF n = 0 THEN <<>> ELSE TextsTo(ds, n - 1) \o Texts(ds[n])
Texts(d) == CASE d.k = "text" -> d.s
              [] d.k \in {"group", "indent"} -> Texts(d.d)
              [] d.k = "cat" -> TextsTo(d.ds, Len(d.ds))
              [] OTHER -> <<>>
HardsTo(ds, n) == IF n = 0 THEN 0 ELSE HardsTo(ds, n - 1) + Hards(ds[n])
Hards(d) == CASE d.k = "hard" -> 1
              [] d.k \in {"group", "indent"} -> Hards(d.d)
              [] d.k = "cat" -> HardsTo(d.ds, Len(d.ds))
              [] OTHER -> 0
Fits(d, c, at) == ~Hard(d) /\ at + FlatWidth(d) <= c.max

RECURSIVE Trim(_)
Trim(o) == IF o # <<>> /\ o[Len(o)] \in {" ", ">"} THEN Trim(SubSeq(o, 1, Len(o) - 1)) ELSE o
Break(o, ind, c) == (IF c.trim THEN Trim(o) ELSE o) \o <<"/">> \o [i \in 1..ind |-> ">"]
Final(o, c) == LET t == IF c.trim THEN Trim(o) ELSE o IN IF c.final /\ t # <<>> /\ t[Len(t)] # "/" THEN Append(t, "/") ELSE t
Item(d, b, n) == [d |-> d, broken |-> b, ind |-> n]

\* one step of the printer: what takes the place of the part on top, what is written, where the line then stands
Effect(it, c, at) ==
  LET d == it.d
      Nothing == [push |-> <<>>, put |-> <<>>, nl |-> FALSE]
      NewLine == [push |-> <<>>, put |-> <<>>, nl |-> TRUE]
      Blank == [push |-> <<>>, put |-> <<" ">>, nl |-> FALSE] IN
  CASE d.k = "nil" -> Nothing
    [] d.k = "text" -> [push |-> <<>>, put |-> d.s, nl |-> FALSE]
    [] d.k = "hard" -> NewLine
    [] d.k \in {"line", "softsp"} -> IF it.broken THEN NewLine ELSE Blank
    [] d.k = "soft" -> IF it.broken THEN NewLine ELSE Nothing
    [] d.k = "cat" -> [push |-> [i \in 1..Len(d.ds) |-> Item(d.ds[i], it.broken, it.ind)], put |-> <<>>, nl |-> FALSE]
    [] d.k = "indent" -> [push |-> <<Item(d.d, it.broken, it.ind + 1)>>, put |-> <<>>, nl |-> FALSE]
    [] d.k = "group" -> [push |-> <<Item(d.d, ~Fits(d.d, c, at), it.ind)>>, put |-> <<>>, nl |-> FALSE]

Start(d, c) == work = <<Item(d, FALSE, 0)>> /\ out = <<>> /\ col = 0 /\ cfg = c
Step == /\ work # <<>>
        /\ LET it == work[1]  e == Effect(it, cfg, col) IN
             /\ work' = e.push \o Tail(work)
             /\ out' = IF e.nl THEN Break(out, it.ind, cfg) ELSE out \o e.put
             /\ col' = IF e.nl THEN it.ind * cfg.unit ELSE col + Len(e.put)
        /\ UNCHANGED cfg

\* the whole run at once
RECURSIVE Run(_, _, _, _)
Run(w, o, at, c) == IF w = <<>> THEN Final(o, c)
                    ELSE LET it == w[1]  e == Effect(it, c, at) IN
                         Run(e.push \o Tail(w), IF e.nl THEN Break(o, it.ind, c) ELSE o \o e.put, IF e.nl THEN it.ind * c.unit ELSE at + Len(e.put), c)
Layout(d, c) == Run(<<Item(d, FALSE, 0)>>, <<>>, 0, c)

\* Design properties of a finished layout
Visible(o) == SelectSeq(o, LAMBDA x : x \notin {" ", "/", ">"})
Count(o, x) == Len(SelectSeq(o, LAMBDA y : y = x))
KeepsTexts(d, o) == Visible(o) = Visible(Texts(d))
AllFlat(d, c, o) == (c.max >= FlatWidth(d) /\ ~Hard(d)) => Count(o, "/") <= 1 /\ Count(o, ">") = 0
HardBreaks(d, o) == Count(o, "/") >= Hards(d)
NoTrailingBlanks(c, o) == c.trim => \A i \in 1..Len(o) - 1 : o[i + 1] = "/" => o[i] \notin {" ", ">"}
=============================================================================
