------------------------------- MODULE MCArena -------------------------------
EXTENDS Arena, TLC, Json
CONSTANTS Sizes, Kinds, Depth
VARIABLE hist
Init == ArenaInit /\ hist = <<>>
Log(a) == hist' = Append(hist, a)
\* one arena exists from the start; the others appear on their own
Next == /\ Len(hist) < Depth
        /\ \/ \E a \in Ids : New(a) /\ (\A b \in Ids : b < a => b \in live) /\ Log([op |-> "new", a |-> a])
           \/ \E a \in live, n \in Sizes, k \in Kinds : Alloc(a, n) /\ Log([op |-> "alloc", a |-> a, n |-> n, kind |-> k])
           \/ \E a \in live : Drop(a) /\ \E w \in {"here", "elsewhere"} : Log([op |-> "drop", a |-> a, where |-> w])
Emit == Len(hist) = Depth => PrintT("@" \o ToJson(hist))
DesignView == <<arena, live, pool, heap, Len(hist)>>
=============================================================================
