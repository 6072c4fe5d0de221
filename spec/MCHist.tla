------------------------------- MODULE MCHist -------------------------------
(* Edit histories over texts of numbered fragments; what the fragments are is up to the language. *)
EXTENDS Text, TLC, Json
CONSTANTS F, MaxStart, Steps, MaxBatch, MaxRepl, MaxCut, MaxLen, Mode
VARIABLES text, batch, hist, n
Frags == 0..(F - 1)
Init == /\ text \in UNION {[1..k -> Frags] : k \in 0..MaxStart}
        /\ batch = <<>> /\ n = 0 /\ hist = <<[text |-> text]>>
Repls == UNION {[1..k -> Frags] : k \in 0..MaxRepl}
Edits == {d \in [s : 0..Len(text), e : 0..Len(text), r : Repls] : d.s <= d.e /\ d.e - d.s <= MaxCut}
Pick == /\ Len(batch) < MaxBatch /\ n < Steps
        /\ \E d \in Edits : (\A i \in DOMAIN batch : Disjoint(d, batch[i])) /\ batch' = Append(batch, d)
        /\ UNCHANGED <<text, hist, n>>
Commit == /\ n < Steps
          /\ LET t == Splice(text, batch) IN
             /\ Len(t) <= MaxLen
             /\ text' = t
             /\ hist' = Append(hist, [edits |-> batch, text |-> t])
          /\ batch' = <<>> /\ n' = n + 1
Next == Pick \/ Commit
Emit == n = Steps => PrintT("@" \o ToJson(hist))
=============================================================================
