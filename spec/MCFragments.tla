---------------------------- MODULE MCFragments ----------------------------
(* Texts as sequences of fragments: all short ones, or random long ones *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, MaxLen, Fragments
VARIABLES seq, done
Init == seq = <<>> /\ done = FALSE
Add == ~done /\ Len(seq) < MaxLen /\ (\E i \in 1..Fragments : seq' = Append(seq, i)) /\ UNCHANGED done
Stop == ~done /\ Len(seq) >= N /\ done' = TRUE /\ UNCHANGED seq
Next == Add \/ Stop
Emit == done => PrintT("@" \o ToJson(seq))
=============================================================================
