------------------------------- MODULE Tokens -------------------------------
(* A text, from its start, is cut into pieces: each begins where the one before ended, is not empty and ends between
   characters. A list of tokens also has an end mark, once, after the last piece and at the end of the text. *)
EXTENDS Integers, Sequences
VARIABLES text, pos, marked
vars == <<text, pos, marked>>
\* text is [len, cuts]: its length in bytes, and the offsets inside it between two characters
Boundary(e) == e = text.len \/ \E i \in 1..Len(text.cuts) : text.cuts[i] = e
CanTake(s, e) == ~marked /\ s = pos /\ e > s /\ e <= text.len /\ Boundary(e)
Take(s, e) == CanTake(s, e) /\ pos' = e /\ UNCHANGED <<text, marked>>
CanMark(s, e) == ~marked /\ s = pos /\ e = pos /\ pos = text.len
Mark(s, e) == CanMark(s, e) /\ marked' = TRUE /\ UNCHANGED <<text, pos>>
\* what is wrong with a piece that cannot be taken
Why(s, e) == CASE marked -> "after the end"
               [] s > pos -> "gap"
               [] s < pos -> "overlap"
               [] e = s -> "empty"
               [] e < s -> "backwards"
               [] e > text.len -> "too long"
               [] OTHER -> "inside a character"
WhyNotMark(s, e) == CASE marked -> "second end"
                      [] s > pos -> "gap"
                      [] s < pos -> "overlap"
                      [] e # s -> "end with text"
                      [] OTHER -> "early end"
=============================================================================
