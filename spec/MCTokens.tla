------------------------------ MODULE MCTokens ------------------------------
(* Every way to cut every text of up to MaxLen characters of one to three bytes *)
EXTENDS Tokens, TLC
CONSTANTS MaxLen
VARIABLES taken
Lens == UNION {[1..n -> {1, 2, 3}] : n \in 0..MaxLen}
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Init == /\ \E f \in Lens : text = [len |-> Sum(f, Len(f)), cuts |-> [i \in 1..(IF Len(f) = 0 THEN 0 ELSE Len(f) - 1) |-> Sum(f, i)]]
        /\ pos = 0 /\ marked = FALSE /\ taken = <<>>
Piece == \E s \in 0..text.len, e \in 0..text.len : Take(s, e) /\ taken' = Append(taken, <<s, e>>)
End == \E s \in 0..text.len : Mark(s, s) /\ UNCHANGED taken
Next == Piece \/ End
\* the pieces are disjoint, and once the end is marked every byte is in exactly one of them
Disjoint == \A i, j \in 1..Len(taken) : i < j => taken[i][2] <= taken[j][1]
Covered == marked => \A b \in 0..text.len - 1 : \E i \in 1..Len(taken) : taken[i][1] <= b /\ b < taken[i][2]
Whole == \A i \in 1..Len(taken) : Boundary(taken[i][2]) /\ (taken[i][1] = 0 \/ Boundary(taken[i][1]))
CanFinish == marked \/ ENABLED Next
=============================================================================
