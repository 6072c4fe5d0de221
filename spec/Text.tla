-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Source text as a sequence of letters.  A letter stands for a character: *)
(*   a b x     themselves (identifier letters)      1   a digit            *)
(*   " "       space       t  tab      n  line feed    r  carriage return  *)
(*   e  two-byte letter    c  three-byte ideograph                          *)
(*   g  four-byte character outside the basic plane (two UTF-16 units)      *)
(*   L  the line separator U+2028 (not a line terminator here)              *)
(*   B  an atomic block of 5001 bytes, longer than a storage chunk          *)
(* Positions are character positions 0..Len; the harness converts them to  *)
(* byte offsets.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Slice(s, i, j) == SubSeq(s, i + 1, j)

Utf16(x) == IF x = "g" THEN 2 ELSE IF x = "B" THEN 2501 ELSE 1
RECURSIVE Units(_)
Units(s) == IF s = <<>> THEN 0 ELSE Utf16(Head(s)) + Units(Tail(s))

Bytes(x) == CASE x = "e" -> 2 [] x \in {"c", "L"} -> 3 [] x = "g" -> 4 [] x = "B" -> 5001 [] OTHER -> 1
RECURSIVE ByteLen(_)
ByteLen(s) == IF s = <<>> THEN 0 ELSE Bytes(Head(s)) + ByteLen(Tail(s))

Ws == {" ", "t", "n", "r"}
Digit == {"1"}
Ident == {"a", "b", "x", "1"}

(* ---- edits ---- *)
Before(b, i, j) ==      \* order in which edit i takes its place before edit j
  \/ b[i].s < b[j].s
  \/ b[i].s = b[j].s /\ b[i].e < b[j].e
  \/ b[i].s = b[j].s /\ b[i].e = b[j].e /\ i < j
Disjoint(x, y) == x.e <= y.s \/ y.e <= x.s
Ordered(b) == CHOOSE p \in [1..Len(b) -> 1..Len(b)] :
                \A i, j \in 1..Len(b) : i < j => Before(b, p[i], p[j])
RECURSIVE SpliceFrom(_, _, _, _, _)
SpliceFrom(text, b, p, k, at) ==
  IF k > Len(b) THEN Drop(text, at)
  ELSE LET d == b[p[k]] IN Slice(text, at, d.s) \o d.r \o SpliceFrom(text, b, p, k + 1, d.e)
Splice(text, b) == SpliceFrom(text, b, Ordered(b), 1, 0)

(* Ranges of the new text that may be reported as affected: what precedes is a common prefix,
   what follows a common suffix. *)
AllowedRanges(old, new) ==
  {fr \in (0..Len(old)) \X (0..Len(new)) :
     /\ fr[1] <= fr[2]
     /\ fr[1] <= Len(new) /\ Take(new, fr[1]) = Take(old, fr[1])
     /\ LET tail == Len(new) - fr[2] IN
        tail <= Len(old) - fr[1] /\ Drop(new, fr[2]) = Drop(old, Len(old) - tail)}

(* ---- scanning ---- *)
RECURSIVE RunFrom(_, _, _)
RunFrom(text, i, class) == IF i < Len(text) /\ text[i + 1] \in class THEN RunFrom(text, i + 1, class) ELSE i
MatchAt(text, i, pat) == i + Len(pat) <= Len(text) /\ Slice(text, i, i + Len(pat)) = pat
Find(text, i, pat) ==     \* -1 when there is none
  LET h == {k \in i..Len(text) : MatchAt(text, k, pat)} IN
  IF h = {} THEN -1 ELSE CHOOSE k \in h : \A m \in h : k <= m

(* ---- lines ---- *)
LineStarts(text) == {0} \cup {i \in 1..Len(text) : text[i] = "n"}
LineOf(text, i) == Cardinality({x \in LineStarts(text) : x <= i}) - 1
LineStart(text, k) == CHOOSE x \in LineStarts(text) : Cardinality({y \in LineStarts(text) : y < x}) = k
LineEnd(text, k) == LET later == {y \in LineStarts(text) : y > LineStart(text, k)} IN
                    IF later = {} THEN Len(text) ELSE CHOOSE y \in later : \A z \in later : y <= z
LineCount(text) == Cardinality(LineStarts(text))
Col16(text, i) == Units(Slice(text, LineStart(text, LineOf(text, i)), i))
=============================================================================
