----------------------------- MODULE MCScanning -----------------------------
EXTENDS Scanning, TLC, Json
CONSTANTS Letters, MaxLen, Kind, Mode, MaxSteps
VARIABLES text, phase, pos, tokens, hist
vars == <<text, phase, pos, tokens, hist>>

H == Helpers(Kind)
Init == text = <<>> /\ phase = "text" /\ pos = 0 /\ tokens = <<>> /\ hist = <<>>
Grow == phase = "text" /\ Len(text) < MaxLen /\ \E x \in Letters : text' = Append(text, x) /\ UNCHANGED <<phase, pos, tokens, hist>>
Start == phase = "text" /\ MaxSteps > 0 /\ (Mode = "emit" => Len(text) * 2 >= MaxLen) /\ phase' = "scan" /\ \E p \in 0..Len(text) : (Mode = "emit" => p < 3) /\ pos' = p /\ hist' = <<[op |-> "start", h |-> 0, ok |-> TRUE, pos |-> p]>> /\ UNCHANGED <<text, tokens>>
Step(o, h, r, toks) == pos' = r.end /\ tokens' = toks /\ hist' = Append(hist, [op |-> o, h |-> h, ok |-> r.ok, pos |-> r.end])
Last == tokens[Len(tokens)]
Act ==
  /\ phase = "scan" /\ Len(hist) <= MaxSteps /\ UNCHANGED <<text, phase>>
  /\ \/ \E h \in 1..Len(H) : LET r == Scan(H[h], text, pos) IN Step("use", h, r, IF r.ok /\ H[h].op \in Tokens THEN Append(tokens, <<h, pos, r.end>>) ELSE tokens)
     \/ pos < Len(text) /\ Step("bump", 0, Take(pos + 1), tokens)
     \/ pos < Len(text) /\ Step("with", 0, Take(pos + 1), Append(tokens, <<99, pos, pos + 1>>))
     \/ pos < Len(text) /\ Step("eat", 0, Take(pos + 1), tokens)
     \/ Mode = "emit" /\ \E q \in {0, Len(text)} : Step("place", q, Take(q), tokens)
     \/ Step("stuck", 0, Take(IF pos < Len(text) THEN pos + 1 ELSE pos), tokens)
     \/ Step("moved", 0, Take(pos), tokens)
     \/ Step("eof", 0, Take(pos), IF tokens # <<>> /\ Last[1] = 0 /\ Last[3] = pos THEN tokens ELSE Append(tokens, <<0, pos, pos>>))
Next == Grow \/ Start \/ Act
Spec == Init /\ [][Next]_vars

Table(t) == [text |-> t, res |-> [h \in 1..Len(H) |-> [p \in 1..(Len(t) + 1) |-> LET r == Scan(H[h], t, p - 1) IN IF r.ok THEN r.end ELSE -1]]]
EmitHelpers == (Mode = "table" /\ text = <<>>) => PrintT("@" \o ToJson([helpers |-> H]))
EmitTable == (Mode = "table" /\ phase = "text") => PrintT("@" \o ToJson(Table(text)))
EmitLong == (Mode = "table" /\ Len(text) = MaxLen) => PrintT("@" \o ToJson(Table(text)))
EmitRunHelpers == (Mode = "emit" /\ text = <<>> /\ phase = "text") => PrintT("@" \o ToJson([helpers |-> H]))
EmitRun == (Mode = "emit" /\ Len(hist) = MaxSteps + 1) => PrintT("@" \o ToJson([text |-> text, hist |-> hist, tokens |-> tokens]))
View == <<text, phase, pos, tokens>>

(* ---- design properties ---- *)
Ordered == /\ pos \in 0..Len(text)
           /\ \A k \in 1..Len(tokens) : tokens[k][2] <= tokens[k][3] /\ tokens[k][3] <= pos /\ (k > 1 => tokens[k - 1][3] <= tokens[k][2])
Forward == [][pos' >= pos \/ phase = "text"]_vars
Whole == \A h \in 1..Len(H), p \in 0..Len(text) :
  LET r == Scan(H[h], text, p) IN
    IF r.ok THEN r.end \in p..Len(text) /\ (H[h].op \in Tokens => r.end > p) ELSE r.end = p
(* A helper looks at nothing before its position, and a piece that ends before the text does does not depend on what follows after the two next letters. *)
Local == \A h \in 1..Len(H), p \in 0..Len(text) :
  LET r == Scan(H[h], text, p)  c == Scan(H[h], SubSeq(text, p + 1, Len(text)), 0) IN r.ok = c.ok /\ r.end = c.end + p
Comment1 == \A h \in 1..Len(H), p \in 0..Len(text) : H[h].op \in {"block", "comment"} =>
  LET r == Scan(H[h], text, p)  z == H[h].end IN
    r.ok => \/ r.end = Len(text)
            \/ z # <<>> /\ r.end >= Len(z) /\ At(text, r.end - Len(z), z)
            \/ H[h].op = "comment" /\ Line(text, p, H[h].line).ok /\ text[r.end + 1] = "n"
(* Nesting never ends a comment earlier, and where no second start mark stands in it it makes no difference. *)
Nesting == \A h \in 1..Len(H), p \in 0..Len(text) : H[h].op = "comment" =>
  LET n == Nested(text, p, H[h].start, H[h].end)  b == Block(text, p, H[h].start, H[h].end) IN
    n.ok = b.ok /\ (H[h].start # H[h].end => n.end >= b.end)
      /\ ((n.ok /\ \A q \in (p + Len(H[h].start))..n.end : ~At(text, q, H[h].start)) => n.end = b.end)
(* The quote that ends a string is the first one behind an even number of escapes. *)
RECURSIVE Before(_, _, _)
Before(p, q, e) == IF q > p /\ text[q] = e THEN 1 + Before(p, q - 1, e) ELSE 0
Closing == \A h \in 1..Len(H), p \in 0..(Len(text) - 1) : H[h].op = "string" =>
  LET r == Scan(H[h], text, p)
      good == {q \in (p + 1)..(Len(text) - 1) : text[q + 1] = text[p + 1] /\ Before(p + 1, q, H[h].escape) % 2 = 0} IN
    r.ok => r.end = IF good = {} THEN Len(text) ELSE Least(good) + 1
=============================================================================
