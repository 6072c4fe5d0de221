------------------------------ MODULE MCEdits ------------------------------
EXTENDS Text, TLC, Json
CONSTANTS Letters, Repls, MaxStart, MaxBatch, Commits, MaxLen, Mode
VARIABLES text, batch, hist, n

StartRepls == {<<>>, <<"x">>, <<"g", "n">>}
BigRepls == {<<>>, <<"x">>, <<"e", "x">>, <<"B">>, <<"n", "g", "x", "c">>}
Texts == UNION {[1..k -> Letters] : k \in 0..MaxStart}
Init == /\ text \in Texts /\ batch = <<>> /\ n = 0
        /\ hist = <<[text |-> text]>>
Edits == [s : 0..Len(text), e : 0..Len(text), r : Repls]
Pick == /\ Len(batch) < MaxBatch /\ n < Commits
        /\ \E d \in Edits : /\ d.s <= d.e
                            /\ \A i \in DOMAIN batch : Disjoint(d, batch[i])
                            /\ batch' = Append(batch, d)
        /\ UNCHANGED <<text, hist, n>>
Commit == /\ n < Commits
          /\ LET t == Splice(text, batch) IN
             /\ Len(t) <= MaxLen
             /\ text' = t
             /\ hist' = Append(hist, [edits |-> batch, text |-> t, ranges |-> AllowedRanges(text, t)])
          /\ batch' = <<>> /\ n' = n + 1
Next == Pick \/ Commit
Emit == (Mode = "emit" /\ n = Commits) => PrintT("@" \o ToJson(hist))

(* Design properties. *)
RECURSIVE Sum(_, _)
Sum(b, i) == IF i > Len(b) THEN 0 ELSE Len(b[i].r) + b[i].s + Sum(b, i + 1)
RECURSIVE Gone(_, _)
Gone(b, i) == IF i > Len(b) THEN 0 ELSE b[i].e + Gone(b, i + 1)
Length == Len(Splice(text, batch)) + Gone(batch, 1) = Len(text) + Sum(batch, 1)
OrderFree == \A p \in Permutations(DOMAIN batch) :
               (\A i, j \in DOMAIN batch : i # j => <<batch[i].s, batch[i].e>> # <<batch[j].s, batch[j].e>>)
                 => Splice(text, [i \in DOMAIN batch |-> batch[p[i]]]) = Splice(text, batch)
SomeRange == LET t == Splice(text, batch) IN
             (batch # <<>>) =>
               LET lo == CHOOSE x \in {batch[i].s : i \in DOMAIN batch} : \A i \in DOMAIN batch : x <= batch[i].s
                   hi == CHOOSE x \in {batch[i].e : i \in DOMAIN batch} : \A i \in DOMAIN batch : x >= batch[i].e
               IN <<lo, Len(t) - (Len(text) - hi)>> \in AllowedRanges(text, t)
=============================================================================
