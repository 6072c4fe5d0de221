----------------------------- MODULE MCPrinter -----------------------------
(* Documents are put together on a stack: a leaf is pushed, the top parts are joined, grouped or indented. Every stack is a
   document (its parts joined), which is then printed. *)
EXTENDS Printer, TLC, Json
CONSTANTS Steps, MinSteps, Widths, Units, Trims, Finals, TextSet, Leaves, MaxArity, Stepwise
VARIABLES stack, n, texts, phase
mc == <<vars, stack, n, texts, phase>>
Alphabet == <<"a", "b", "c", "d", "e", "f", "g", "h", "j", "k", "l", "m", "o", "p", "q", "r", "t", "u", "v", "w", "x", "y">>
Shape(t, c) == CASE t = "w1" -> <<c>> [] t = "w2" -> <<c, c>> [] t = "w3" -> <<c, c, c>> [] t = "bl" -> <<c, " ">>
                 [] t = "w6" -> <<c, c, c, c, c, c>> [] t = "w0" -> <<>>
Init == /\ stack = <<>> /\ n = 0 /\ texts = 0 /\ phase = "build"
        /\ work = <<>> /\ out = <<>> /\ col = 0 /\ cfg = [max |-> 0, unit |-> 1, trim |-> TRUE, final |-> TRUE]
LeafOf(x) == CASE x = "nil" -> Nil [] x = "line" -> Line [] x = "soft" -> SoftLine [] x = "softsp" -> SoftLineSpace [] x = "hard" -> HardLine
Top == stack[Len(stack)]
Whole == IF Len(stack) = 1 THEN stack[1] ELSE Cat(stack)
Building == phase = "build" /\ n < Steps /\ n' = n + 1 /\ UNCHANGED <<vars, phase>>
PushText == Building /\ \E t \in TextSet : texts < Len(Alphabet) /\ stack' = Append(stack, TextOf(Shape(t, Alphabet[texts + 1]))) /\ texts' = texts + 1
PushLeaf == Building /\ \E x \in Leaves : stack' = Append(stack, LeafOf(x)) /\ UNCHANGED texts
Join == Building /\ \E k \in 2..MaxArity : Len(stack) >= k /\ stack' = SubSeq(stack, 1, Len(stack) - k) \o <<Cat(SubSeq(stack, Len(stack) - k + 1, Len(stack)))>> /\ UNCHANGED texts
Enclose == Building /\ stack # <<>> /\ Top.k \notin {"group", "nil", "text"} /\ stack' = SubSeq(stack, 1, Len(stack) - 1) \o <<Group(Top)>> /\ UNCHANGED texts
Nest == Building /\ stack # <<>> /\ Top.k \notin {"nil", "text"} /\ stack' = SubSeq(stack, 1, Len(stack) - 1) \o <<Indent(Top)>> /\ UNCHANGED texts
Open == /\ phase = "build" /\ stack # <<>> /\ n >= MinSteps /\ phase' = "print" /\ UNCHANGED <<stack, n, texts>>
        /\ \E m \in Widths, u \in Units, t \in Trims, f \in Finals :
             LET c == [max |-> m, unit |-> u, trim |-> t, final |-> f] IN
             IF Stepwise THEN work' = <<Item(Whole, FALSE, 0)>> /\ out' = <<>> /\ col' = 0 /\ cfg' = c
             ELSE work' = <<>> /\ out' = Layout(Whole, c) /\ col' = 0 /\ cfg' = c
Work == phase = "print" /\ Stepwise /\ Step /\ UNCHANGED <<stack, n, texts, phase>>
Next == PushText \/ PushLeaf \/ Join \/ Enclose \/ Nest \/ Open \/ Work
Result == IF Stepwise THEN Final(out, cfg) ELSE out
Done == phase = "print" /\ work = <<>>
Emit == Done => PrintT("@" \o ToJson([doc |-> Whole, cfg |-> cfg, out |-> out]))
\* Design properties
RunsAlike == Done => Result = Layout(Whole, cfg)
LayoutRight == Done => KeepsTexts(Whole, Result) /\ AllFlat(Whole, cfg, Result) /\ HardBreaks(Whole, Result) /\ NoTrailingBlanks(cfg, Result)
\* a group laid out flat breaks no line and ends within the width
FlatGroups == [][(phase = "print" /\ work # <<>> /\ work[1].d.k = "group") =>
                  (work'[1].broken <=> (Hard(work[1].d) \/ col + FlatWidth(work[1].d) > cfg.max))]_mc
=============================================================================
