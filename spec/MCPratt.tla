------------------------------ MODULE MCPratt -------------------------------
EXTENDS Pratt, TLC, Json
CONSTANTS MaxLen, Mode, Tables, Mins, Kinds, WellFormed
VARIABLES T, B, min

Inf(p, a) == [p |-> p, a |-> a]
No == [p |-> 0, a |-> "-"]
(* kinds 4, 5: infix; 6: prefix, perhaps infix; 7: postfix *)
Table(i4, i5, i6, pre, post) == [infix |-> <<No, No, No, i4, i5, i6, No>>, prefix |-> <<0, 0, 0, 0, 0, pre, 0>>, postfix |-> <<0, 0, 0, 0, 0, 0, post>>]
TablesSmall == {Table(Inf(1, "L"), Inf(2, "L"), No, 3, 3), Table(Inf(1, "L"), Inf(2, "R"), Inf(1, "L"), 2, 3), Table(Inf(2, "R"), Inf(2, "R"), Inf(1, "L"), 1, 2),
                Table(Inf(2, "L"), Inf(2, "L"), No, 2, 1), Table(Inf(1, "R"), Inf(2, "N"), Inf(2, "L"), 3, 2), Table(Inf(3, "L"), Inf(1, "R"), Inf(3, "R"), 2, 2)}
TablesAll == {Table(Inf(p4, a4), Inf(p5, a5), i6, pre, post) : p4 \in 1..3, a4 \in {"L", "R"}, p5 \in 1..3, a5 \in {"L", "R", "N"}, i6 \in {No, Inf(1, "L"), Inf(2, "R")}, pre \in 1..4, post \in {0, 1, 3}}

Init == T = <<>> /\ B \in Tables /\ min \in Mins
(* for long sequences: operators where an operator is expected *)
RECURSIVE Depths(_)
Depths(x) == IF x = <<>> THEN 0 ELSE Depths(SubSeq(x, 1, Len(x) - 1)) + (IF x[Len(x)] = Open THEN 1 ELSE IF x[Len(x)] = Close THEN -1 ELSE 0)
AfterOperand == T # <<>> /\ (T[Len(T)] \in {Operand, Close} \/ (T[Len(T)] = 7 /\ HasPostfix(B, 7)))
Fits(k) == ~WellFormed \/ IF AfterOperand THEN (k \in {4, 5} \/ (k = 6 /\ HasInfix(B, 6)) \/ (k = 7 /\ HasPostfix(B, 7)) \/ (k = Close /\ Depths(T) > 0)) ELSE k \in {Operand, 6, Open}
Next == Len(T) < MaxLen /\ \E k \in Kinds : Fits(k) /\ T' = Append(T, k) /\ UNCHANGED <<B, min>>

Result == Parse(T, B, 1, min)
Out == [tokens |-> T, infix |-> <<No>> \o B.infix, prefix |-> <<0>> \o B.prefix, postfix |-> <<0>> \o B.postfix, min |-> min, used |-> Result.pos - 1, tree |-> Flat(Result.e)]
Emit == (Mode = "emit" /\ ~Chained(B, Result.e)) => PrintT("@" \o ToJson(Out))
EmitLast == (Mode = "sim" /\ Len(T) = MaxLen /\ ~Chained(B, Result.e)) => PrintT("@" \o ToJson(Out))

GroupsAsDeclared == Grouped(B, Result.e) /\ AllAtLeast(LeftEdge(B, Result.e), min)
TakesAll == Longest(T, B, Result, min)
RECURSIVE Toks(_, _)
Toks(f, i) == IF i > Len(f) THEN <<>> ELSE (IF f[i] > 0 THEN <<f[i]>> ELSE <<>>) \o Toks(f, i + 1)
EveryTokenOnce == Toks(Flat(Result.e), 1) = [i \in 1..(Result.pos - 1) |-> i]
=============================================================================
