----------------------------- MODULE MCLossless -----------------------------
EXTENDS Lossless, TLC
CONSTANTS MaxTokens, MaxLength
VARIABLE leaves
Init == tokens \in UNION {[1..n -> 1..MaxLength] : n \in 0..MaxTokens} /\ taken = 0 /\ leaves = <<>>
Next == \E n \in 1..MaxLength : Hang(n) /\ leaves' = Append(leaves, n)
\* a finished tree has the text of its tokens, token by token
Same == leaves = SubSeq(tokens, 1, taken)
Whole == Done => Sum(leaves) = Sum(tokens) /\ leaves = tokens
\* a parser can always go on
Live == Done \/ \E n \in 1..MaxLength : CanHang(n)
=============================================================================
