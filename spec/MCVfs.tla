------------------------------- MODULE MCVfs -------------------------------
(* Model checking of the design, and enumeration of every history up to a *)
(* depth together with what the code must answer after each step.          *)
EXTENDS Vfs, TLC, Json, Integers
CONSTANTS Depth, Handles, MaxIds
VARIABLE hist
MCInit == Init /\ hist = <<>>
Do(op, h, u, c, t) == s' = t /\ hist' = Append(hist, [op |-> op, h |-> h, u |-> u, c |-> c, exp |-> Observe(t)])
MCNext == /\ Len(hist) < Depth
          /\ \E u \in Uris, h \in Handles :
               \/ \E c \in Contents : Do("write", h, u, c, WriteTo(s, u, c))
               \/ Do("remove", h, u, "", RemoveFrom(s, u))
Emit == Len(hist) = Depth => PrintT("@" \o ToJson(hist))
Init0 == Init /\ hist = <<>>
Next0 == Next /\ UNCHANGED hist
NoReuse0 == NoReuse
Bounded == s.issued <= MaxIds
=============================================================================
