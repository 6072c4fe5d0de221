----------------------------- MODULE MCNotation -----------------------------
(* Terms of the notation are put together on a stack, each part in one of the ways a program can hold it. *)
EXTENDS Notation, Json
CONSTANTS Steps, MinSteps, Leaves, TextWays, HeldWays, JoinWays, Styles, MaxArity, Width
VARIABLES stack, n, phase
mc == <<vars, stack, n, phase>>
Alphabet == <<"a", "b", "c", "d", "e", "f", "g", "h", "j", "k", "l", "m", "o", "p", "q", "r", "t", "u", "v", "w", "x", "y">>
Init == /\ stack = <<>> /\ n = 0 /\ phase = "build"
        /\ work = <<>> /\ out = <<>> /\ col = 0 /\ cfg = [max |-> Width, unit |-> 2, trim |-> TRUE, final |-> TRUE]
Building == phase = "build" /\ n < Steps /\ n' = n + 1 /\ UNCHANGED <<vars, phase>>
Put(k, t) == stack' = SubSeq(stack, 1, Len(stack) - k) \o <<t>>
Topmost(k) == SubSeq(stack, Len(stack) - k + 1, Len(stack))
PushLeaf == Building /\ \E k \in Leaves : Put(0, Leaf(k))
PushText == Building /\ \E s \in {<<Alphabet[n + 1]>>, <<Alphabet[n + 1], " ", Alphabet[n + 1]>>} : Put(0, Literal(s))
PushValue == Building /\ \E w \in TextWays, s \in {<<Alphabet[n + 1]>>, <<Alphabet[n + 1], Alphabet[n + 1], ";">>} : Put(0, Value(s, w, n))
Gather == Building /\ \E k \in 0..MaxArity, st \in Styles : Len(stack) >= k /\ (k = 0 => st = "brackets") /\ Put(k, Several(Topmost(k), st))
Enclose == Building /\ stack # <<>> /\ Put(1, Enclosed(stack[Len(stack)]))
Nest == Building /\ stack # <<>> /\ Put(1, Nested(stack[Len(stack)]))
Hold == Building /\ stack # <<>> /\ \E w \in HeldWays : Put(1, Held(stack[Len(stack)], w, n))
Separate == Building /\ \E k \in 0..MaxArity, w \in JoinWays : /\ Len(stack) > k /\ (k = 0 => w \notin {"vec", "array"})
                                                             /\ Put(k + 1, Joined(SubSeq(stack, Len(stack) - k, Len(stack) - 1), stack[Len(stack)], w, n))
Whole == IF Len(stack) = 1 THEN stack[1] ELSE Several(stack, "bare")
Open == phase = "build" /\ n >= MinSteps /\ stack # <<>> /\ phase' = "done" /\ UNCHANGED <<vars, stack, n>>
Next == PushLeaf \/ PushText \/ PushValue \/ Gather \/ Enclose \/ Nest \/ Hold \/ Separate \/ Open
Done == phase = "done"
Emit == Done => PrintT("@" \o ToJson([before |-> Before(Whole), spelled |-> Spell(Whole, TRUE), doc |-> Meaning(Whole), cfg |-> cfg, out |-> Layout(Meaning(Whole), cfg)]))
\* Design properties: layouts of what is meant keep every text; joining puts one separator less than there are items
Kept == Done => KeepsTexts(Meaning(Whole), Layout(Meaning(Whole), cfg))
Between1 == \A i \in 1..Len(stack) : (stack[i].k = "joined") => Len(Meaning(stack[i]).ds) = (IF stack[i].ts = <<>> THEN 0 ELSE 2 * Len(stack[i].ts) - 1)
=============================================================================
