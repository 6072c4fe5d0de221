------------------------------ MODULE MCLines ------------------------------
EXTENDS Text, TLC, Json
CONSTANTS Letters, MaxLen, Mode
VARIABLES text

Init == text = <<>>
Next == Len(text) < MaxLen /\ \E x \in Letters : text' = Append(text, x)
Observe(t) ==
  [text |-> t,
   lines |-> [k \in 1..LineCount(t) |-> [s |-> LineStart(t, k - 1), e |-> LineEnd(t, k - 1), units |-> Units(Slice(t, LineStart(t, k - 1), LineEnd(t, k - 1)))]],
   pos |-> [i \in 1..(Len(t) + 1) |-> [line |-> LineOf(t, i - 1), col |-> Col16(t, i - 1)]]]
Emit == Mode = "emit" => PrintT("@" \o ToJson(Observe(text)))
EmitLong == (Mode = "emit" /\ Len(text) = MaxLen) => PrintT("@" \o ToJson(Observe(text)))

(* Design properties: positions determine offsets and are ordered like them; lines partition the text. *)
Injective == \A i, j \in 0..Len(text) : (LineOf(text, i) = LineOf(text, j) /\ Col16(text, i) = Col16(text, j)) => i = j
Monotone == \A i, j \in 0..Len(text) : i < j => LineOf(text, i) <= LineOf(text, j)
Partition == \A k \in 0..(LineCount(text) - 2) : LineEnd(text, k) = LineStart(text, k + 1) /\ text[LineEnd(text, k)] = "n"
=============================================================================
