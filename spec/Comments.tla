------------------------------ MODULE Comments ------------------------------
(* Comments of a source text: what a formatter makes of their text, and a collector of them by position. Letters: words,
   " ", "t" for another blank (tabs, carriage returns, ...), "*" and "/" for a line break; the markers of comments are single letters here: "//", "///", "/*", "*/". *)
EXTENDS Integers, Sequences
Blank(x) == x \in {" ", "t", "/"}
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ Blank(Head(s)) THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ Blank(s[Len(s)]) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))
RECURSIVE Lines(_)
First(s) == CHOOSE i \in 1..Len(s) + 1 : (i = Len(s) + 1 \/ s[i] = "/") /\ \A j \in 1..i - 1 : s[j] # "/"
Lines(s) == LET i == First(s) IN IF i = Len(s) + 1 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Lines(SubSeq(s, i + 1, Len(s)))
Multi(s) == \E i \in 1..Len(s) : s[i] = "/"
Open(k) == CASE k = "line" -> <<"//">> [] k = "doc" -> <<"///">> [] k = "block" -> <<"/*">>
Close(k) == IF k = "block" THEN <<"*/">> ELSE <<>>
Raw(k, s) == Open(k) \o s \o Close(k)
\* the lines of a block: blank lines at either end and a margin of stars are not text
RECURSIVE DropL(_), DropR(_)
DropL(ls) == IF ls # <<>> /\ Head(ls) = <<>> THEN DropL(Tail(ls)) ELSE ls
DropR(ls) == IF ls # <<>> /\ ls[Len(ls)] = <<>> THEN DropR(SubSeq(ls, 1, Len(ls) - 1)) ELSE ls
Body(s) == LET ls == DropL(DropR([i \in 1..Len(Lines(s)) |-> Trim(Lines(s)[i])]))
               margin == \A i \in 1..Len(ls) : ls[i] = <<>> \/ ls[i][1] = "*" IN
           IF margin THEN DropL(DropR([i \in 1..Len(ls) |-> IF ls[i] = <<>> THEN <<>> ELSE Trim(Tail(ls[i]))])) ELSE ls
RECURSIVE Stars(_, _)
Stars(ls, ind) == IF ls = <<>> THEN <<>>
                  ELSE ind \o <<" ", "*">> \o (IF Head(ls) = <<>> THEN <<>> ELSE <<" ">> \o Head(ls)) \o <<"/">> \o Stars(Tail(ls), ind)
Formatted(k, s, ind) ==
  IF Trim(s) = <<>> THEN Raw(k, s)
  ELSE IF k = "block" /\ Multi(s) THEN <<"/*", "/">> \o Stars(Body(s), ind) \o ind \o <<" ", "*/">>
  ELSE Open(k) \o <<" ">> \o Trim(s) \o (IF k = "block" THEN <<" ", "*/">> ELSE <<>>)
\* the content of a formatted comment
Inner(k, f) == SubSeq(f, 2, IF k = "block" THEN Len(f) - 1 ELSE Len(f))
Words(s) == SelectSeq(s, LAMBDA x : x \notin {" ", "t", "/", "*", "//", "///", "/*", "*/"})
=============================================================================
