------------------------------ MODULE MCLiteral ------------------------------
EXTENDS Literal, Json
CONSTANTS Steps, MinSteps, Halves, NumWays, TextWays, ArrayWays, ObjectWays, HeldWays, MaxArity
VARIABLES stack, n, phase
mc == <<stack, n, phase>>
Keys == <<"a", "b", "null_one", "c", "nulls">>
Texts == {"", "x y", "null"}
Init == stack = <<>> /\ n = 0 /\ phase = "build"
Building == phase = "build" /\ n < Steps /\ n' = n + 1 /\ UNCHANGED phase
Put(k, v) == stack' = SubSeq(stack, 1, Len(stack) - k) \o <<v>>
Topmost(k) == SubSeq(stack, Len(stack) - k + 1, Len(stack))
Allowed(h, w) == (w \in {"whole", "typed", "cast"} => h % 2 = 0)
PushLeaf == Building /\ \E v \in {Null, Truth(TRUE), Truth(FALSE)} : Put(0, v)
PushNumber == Building /\ \E h \in Halves \cup {0 - 3, 0 - 4}, w \in NumWays : Allowed(h, w) /\ Put(0, Number(h, w))
PushText == Building /\ \E s \in Texts, w \in TextWays : Put(0, Text(s, w))
Gather == Building /\ \E k \in 0..MaxArity, w \in ArrayWays : Len(stack) >= k /\ Put(k, Array(Topmost(k), w))
Name == Building /\ \E k \in 0..MaxArity, w \in ObjectWays, i \in 0..1 : Len(stack) >= k /\ Put(k, Object(SubSeq(Keys, 1 + i, k + i), Topmost(k), w))
Hold == Building /\ stack # <<>> /\ \E w \in HeldWays : Put(1, Held(stack[Len(stack)], w))
Whole == IF Len(stack) = 1 THEN stack[1] ELSE Array(stack, "plain")
Open == phase = "build" /\ n >= MinSteps /\ stack # <<>> /\ phase' = "done" /\ UNCHANGED <<stack, n>>
Next == PushLeaf \/ PushNumber \/ PushText \/ Gather \/ Name \/ Hold \/ Open
Done == phase = "done"
Emit == Done => PrintT("@" \o ToJson([spelled |-> Spell(Whole), value |-> Meaning(Whole)]))
=============================================================================
