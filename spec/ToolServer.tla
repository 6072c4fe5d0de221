----------------------------- MODULE ToolServer -----------------------------
(* The tool server (oak-mcp): lines arrive in pieces over a stream, every complete line is served in order, and the
   answers appear on the output, flushed, before the server waits for more input.  A line is delivered as three pieces:
   the first part of its text, the rest of its text, and the line break. *)
EXTENDS Integers, Sequences
CONSTANTS Tools, NeedsUri, NeedsOffset, NeedsContent, NeedsQuery, Searching
VARIABLES script,   \* the lines the client sends
          fed,      \* pieces delivered so far
          closed,
          out,      \* answers written and flushed, in order
          calls     \* what the language service was asked, in order
vars == <<script, fed, closed, out, calls>>

\* the outcome of calling a tool with (or without) the arguments it needs
Missing(l) == \/ l.tool \in NeedsUri /\ ~l.uri
              \/ l.tool \in NeedsOffset /\ ~l.offset
              \/ l.tool \in NeedsContent /\ ~l.content
              \/ l.tool \in NeedsQuery /\ ~l.query
Refused(l) == l.tool \notin Tools \/ Missing(l) \/ (l.tool \in NeedsQuery /\ Searching # "works")
Answer(l, i) ==
  CASE l.k = "initialize" -> <<[id |-> i, is |-> "welcome"]>>
    [] l.k = "list"       -> <<[id |-> i, is |-> "tools"]>>
    [] l.k = "call"       -> <<[id |-> i, is |-> IF Refused(l) THEN "error" ELSE "content", call |-> l]>>
    [] l.k = "unknown"    -> <<[id |-> i, is |-> "no method"]>>
    [] l.k = "nomethod"   -> <<[id |-> i, is |-> "invalid"]>>      \* an identifier but no method
    [] l.k = "noise"      -> <<[id |-> 0, is |-> "invalid"]>>      \* JSON, but neither request, notification nor response
    [] l.k = "broken"     -> <<[id |-> 0, is |-> "unreadable"]>>   \* not JSON, or not text
    [] OTHER              -> <<>>                                  \* notifications, responses, blank lines
Asked(l, i) == IF l.k = "call" /\ l.tool \in Tools /\ ~Missing(l) /\ (l.tool \in NeedsQuery => Searching # "absent") THEN <<[line |-> i, call |-> l]>> ELSE <<>>

RECURSIVE Answers(_, _, _)
Answers(s, i, j) == IF i > j THEN <<>> ELSE Answer(s[i], i) \o Answers(s, i + 1, j)
RECURSIVE Questions(_, _, _)
Questions(s, i, j) == IF i > j THEN <<>> ELSE Asked(s[i], i) \o Questions(s, i + 1, j)
\* a text cut off within its first part cannot be read
Cut(l) == IF l.k = "blank" THEN l ELSE [k |-> "broken"]

ServerInit == fed = 0 /\ closed = FALSE /\ out = <<>> /\ calls = <<>>
Feed(n) == LET before == fed \div 3
               after == (fed + n) \div 3
           IN /\ ~closed /\ fed + n <= 3 * Len(script)
              /\ fed' = fed + n
              /\ out' = out \o Answers(script, before + 1, after)
              /\ calls' = calls \o Questions(script, before + 1, after)
              /\ UNCHANGED <<script, closed>>
\* the client closes its side: an unfinished last line is a line all the same
Close == /\ ~closed /\ closed' = TRUE
         /\ LET i == fed \div 3 + 1 IN
            CASE fed % 3 = 0 -> UNCHANGED <<out, calls>>
              [] fed % 3 = 1 -> out' = out \o Answer(Cut(script[i]), i) /\ UNCHANGED calls
              [] OTHER -> out' = out \o Answer(script[i], i) /\ calls' = calls \o Asked(script[i], i)
         /\ UNCHANGED <<script, fed>>

\* Design properties: every request line served is answered exactly once, in order; nothing else carries its identifier
Served == fed \div 3
Identified(l) == l.k \in {"initialize", "list", "call", "unknown", "nomethod"}
Count(i) == LET h == {k \in 1..Len(out) : out[k].id = i} IN IF h = {} THEN 0 ELSE IF \E k \in h : h = {k} THEN 1 ELSE 2
OneAnswer == \A i \in 1..Len(script) :
  Count(i) = (IF Identified(script[i]) /\ (i <= Served \/ (closed /\ i = Served + 1 /\ fed % 3 = 2)) THEN 1 ELSE 0)
InOrder == \A a, b \in 1..Len(out) : (a < b /\ out[a].id # 0 /\ out[b].id # 0) => out[a].id < out[b].id
=============================================================================
