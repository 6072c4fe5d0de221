------------------------------ MODULE Lossless ------------------------------
(* A parser takes the tokens it is given one after another and hangs each into its tree, once; in the end it has taken all. *)
EXTENDS Integers, Sequences
VARIABLES tokens, taken
vars == <<tokens, taken>>
\* a token is known by its length
CanHang(n) == taken < Len(tokens) /\ tokens[taken + 1] = n
Hang(n) == CanHang(n) /\ taken' = taken + 1 /\ UNCHANGED tokens
Done == taken = Len(tokens)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* what is wrong with leaves that are not the tokens
Fault(leaves) == IF Sum(leaves) < Sum(tokens) THEN "text lost" ELSE IF Sum(leaves) > Sum(tokens) THEN "text repeated" ELSE "cut differently"
=============================================================================
