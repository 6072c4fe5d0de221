---------------------------- MODULE MCToolServer ----------------------------
EXTENDS ToolServer, TLC, Json
CONSTANTS MaxLines, Plain, CallTools, Mode, Wait
VARIABLE hist
Call(t, u, o, c, q) == [k |-> "call", tool |-> t, uri |-> u, offset |-> o, content |-> c, query |-> q]
\* all arguments, none, or exactly one missing
Calls == {Call(t, a[1], a[2], a[3], a[4]) : t \in CallTools, a \in {<<TRUE, TRUE, TRUE, TRUE>>, <<FALSE, FALSE, FALSE, FALSE>>, <<FALSE, TRUE, TRUE, FALSE>>, <<TRUE, FALSE, FALSE, TRUE>>}}
Lines == [k : Plain] \cup Calls
Init == script = <<>> /\ ServerInit /\ hist = <<>>
\* the script is chosen line by line as it is needed
More == /\ ~closed /\ Len(script) < MaxLines /\ fed = 3 * Len(script)
        /\ \E l \in Lines : script' = Append(script, l)
        /\ UNCHANGED <<fed, closed, out, calls, hist>>
Note(a) == hist' = Append(hist, a @@ [out |-> out', calls |-> calls'])
Next == \/ More
        \/ \E n \in 1..3 : Feed(n) /\ Note([op |-> "feed", n |-> n])
        \/ (Len(script) = MaxLines \/ Wait = 0) /\ fed > 3 * (Len(script) - 1) /\ Close /\ Note([op |-> "close", n |-> 0])
Emit == (Mode = "emit" /\ closed /\ Len(script) = MaxLines) => PrintT("@" \o ToJson([script |-> script, ops |-> hist, searching |-> Searching]))
\* all lines chosen first, then delivered in pieces of any size across lines
MoreAll == /\ fed = 0 /\ hist = <<>> /\ ~closed /\ Len(script) < MaxLines /\ (\E l \in Lines : script' = Append(script, l)) /\ UNCHANGED <<fed, closed, out, calls, hist>>
NextAll == \/ MoreAll
           \/ /\ Len(script) = MaxLines
              /\ \/ \E n \in {1, 2, 3, 4, 5, 7, 9} : Feed(n) /\ Note([op |-> "feed", n |-> n])
                 \/ Close /\ Note([op |-> "close", n |-> 0])
DesignView == vars
=============================================================================
