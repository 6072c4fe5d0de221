--------------------------- MODULE MCDiagnostics ---------------------------
EXTENDS Diagnostics, TLC, Json
CONSTANTS Letters, MaxLen, Srcs, MaxOps, Mode
VARIABLES phase, hist
Init == text = <<>> /\ err = [kind |-> "none", at |-> -1, src |-> 0] /\ phase = "text" /\ hist = <<>>
Out(rec) == Mode = "emit" => PrintT("@" \o ToJson(rec))
Grow == phase = "text" /\ Len(text) < MaxLen /\ (\E x \in Letters : text' = Append(text, x)) /\ UNCHANGED <<err, phase, hist>>
Note(a) == hist' = Append(hist, a @@ [err |-> err'])
Raise == /\ phase = "text" /\ phase' = "err"
         /\ \E k \in Kinds, at \in 0..(Len(text) + 1), s \in Srcs :
              /\ k \in Located \/ (at = 0)
              /\ Create(k, at, s) /\ Note([op |-> "create", kind |-> k, at |-> at, src |-> s])
Travel == /\ phase = "err" /\ Len(hist) < MaxOps
          /\ \/ \E s \in Srcs \ {0} : Attach(s) /\ Note([op |-> "attach", src |-> s])
             \/ Copy /\ hist[Len(hist)].op # "copy" /\ Note([op |-> "copy"])
          /\ UNCHANGED phase
Next == Grow \/ Raise \/ Travel
\* one record for each way an error can travel, with what must be shown
EmitErrors == (phase = "err" /\ (Len(hist) = MaxOps \/ Len(hist) = 1)) => Out([text |-> text, ops |-> hist, err |-> err, label |-> Label])
\* one record for each text with all spans
Spans == {sp \in (0..Len(text)) \X (0..Len(text)) : sp[1] <= sp[2]}
EmitLabels == (phase = "text" /\ (Mode = "emit" => Len(text) = MaxLen)) => Out([text |-> text, spans |-> {[s |-> sp[1], e |-> sp[2], show |-> Covered(sp[1], sp[2])] : sp \in Spans}])
\* design: the place shown identifies the place meant; nothing but an attached source changes an error; a shown line holds no terminator
PlaceExact == \A i, j \in 0..Len(text) : (Place(i).line = Place(j).line /\ Place(i).col = Place(j).col) => i = j
ShownClean == \A k \in 0..(LineCount(text) - 1) : \A p \in (Shown(k).s + 1)..Shown(k).e : text[p] # "n"
Keeps == [][phase = "err" => err'.at = err.at /\ err'.kind = err.kind /\ (err'.src # err.src => hist'[Len(hist')].op = "attach")]_<<text, err, phase, hist>>
LabelInside == Label # <<>> => Label[1].from.pos <= Label[1].to.pos /\ Label[1].to.pos <= Len(text) /\ Label[1].from.pos = Clamp(err.at)
NoGrow == phase = "text" => Grow
NextLabels == Grow
=============================================================================
