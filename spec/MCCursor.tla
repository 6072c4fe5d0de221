------------------------------ MODULE MCCursor ------------------------------
(* A cursor over a text stored in pieces.  Where the pieces end (cuts) plays no part in any answer. *)
EXTENDS Text, Integers, TLC, Json
CONSTANTS Letters, MinLen, MaxLen, Steps, Mode
VARIABLES text, cuts, pos, phase, hist

Patterns == {<<"a">>, <<"e">>, <<"a", "b">>, <<"a", "e">>, <<"a", "a", "b">>, <<"n">>, <<"1", " ">>, <<"e", "a", "g">>, <<"a", "1", "b", "e">>}
Classes == [ident |-> Ident, digit |-> Digit, ws |-> Ws, a |-> {"a"}, wide |-> {"e", "c", "g"}, all |-> Ident \cup Ws \cup {"e", "c", "g"}, none |-> {}]

Peek(i) == IF i < Len(text) THEN text[i + 1] ELSE ""
(* every operation: its name, argument, result, and the position after it *)
Do(name, arg, res, p) == pos' = p /\ hist' = Append(hist, [op |-> name, arg |-> arg, res |-> res, pos |-> p])
AnOp ==
  \/ \E k \in 0..Len(text) : Do("set", k, "", k)
  \/ Do("peek", 0, Peek(pos), pos)
  \/ Do("peek_next", 0, IF pos < Len(text) THEN Peek(pos + 1) ELSE "", pos)
  \/ \E k \in 0..2 : Do("peek_n", k, Peek(pos + k), pos)
  \/ Do("advance", 0, Peek(pos), IF pos < Len(text) THEN pos + 1 ELSE pos)
  \/ \E k \in 0..3 : pos + k <= Len(text) /\ Do("advance_by", k, "", pos + k)
  \/ \E c \in DOMAIN Classes : Do("take", c, "", RunFrom(text, pos, Classes[c]))
  \/ \E c \in {"ident", "digit", "ws", "a", "none"} : Do("take_byte", c, "", RunFrom(text, pos, Classes[c]))
  \/ Do("skip_ws", 0, "", RunFrom(text, pos, Ws))
  \/ Do("skip_digits", 0, "", RunFrom(text, pos, Digit))
  \/ Do("skip_ident", 0, "", RunFrom(text, pos, Ident))
  \/ \E x \in {"a", "n", " "} : Do("until", x, "", IF Find(text, pos, <<x>>) < 0 THEN Len(text) ELSE Find(text, pos, <<x>>))
  \/ \E p \in Patterns : Do("starts", p, IF MatchAt(text, pos, p) THEN "yes" ELSE "no", pos)
  \/ \E p \in Patterns : Do("consume", p, IF MatchAt(text, pos, p) THEN "yes" ELSE "no", IF MatchAt(text, pos, p) THEN pos + Len(p) ELSE pos)
  \/ \E p \in Patterns : Do("find", p, Find(text, pos, p), pos)

(* answers of the source itself, asked once the text is built *)
SourceObs ==
  [find |-> {[i |-> i, p |-> p, r |-> Find(text, i, p)] : i \in 0..Len(text), p \in Patterns},
   len |-> Len(text)]

Init == text = <<>> /\ cuts = {} /\ pos = 0 /\ phase = "build" /\ hist = <<>>
Grow == /\ phase = "build" /\ Len(text) < MaxLen
        /\ \E x \in Letters, c \in BOOLEAN :
             /\ (text = <<>> => ~c)
             /\ text' = Append(text, x)
             /\ cuts' = IF c THEN cuts \cup {Len(text)} ELSE cuts
        /\ UNCHANGED <<pos, phase, hist>>
Go == /\ phase = "build" /\ Len(text) >= MinLen
      /\ phase' = "run" /\ hist' = <<[text |-> text, cuts |-> cuts, obs |-> SourceObs]>>
      /\ UNCHANGED <<text, cuts, pos>>
Step == /\ phase = "run" /\ Len(hist) <= Steps
        /\ AnOp
        /\ UNCHANGED <<text, cuts, phase>>
Next == Grow \/ Go \/ Step
Emit == (Mode = "emit" /\ Len(hist) = Steps + 1) => PrintT("@" \o ToJson(hist))

(* Design properties *)
InText == pos \in 0..Len(text)
Shown == <<text, cuts, pos, phase, Len(hist)>>
FindSound == \A p \in Patterns : LET r == Find(text, pos, p) IN
               IF r < 0 THEN \A k \in pos..Len(text) : ~MatchAt(text, k, p)
               ELSE MatchAt(text, r, p) /\ r >= pos /\ \A k \in pos..(r - 1) : ~MatchAt(text, k, p)
=============================================================================
