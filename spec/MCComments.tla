----------------------------- MODULE MCComments -----------------------------
EXTENDS Comments, TLC, Json
CONSTANTS What, Letters, MaxLen, MinLen, Places, MaxComments, Steps
VARIABLES text, phase,                        \* texts of comments
          held, keep, form, n, hist           \* a processor: the comments of its collector and its settings
mc == <<text, phase, held, keep, form, n, hist>>
Kinds == {"line", "doc", "block"}
Init == text = <<>> /\ phase = "build" /\ held = <<>> /\ keep = TRUE /\ form = TRUE /\ n = 0 /\ hist = <<>>
Fits(k, s) == k = "block" \/ ~Multi(s)
Write == What = "texts" /\ phase = "build" /\ Len(text) < MaxLen /\ \E x \in Letters : text' = Append(text, x) /\ UNCHANGED <<phase, held, keep, form, n, hist>>
Stop == What = "texts" /\ phase = "build" /\ Len(text) >= MinLen /\ phase' = "done" /\ UNCHANGED <<text, held, keep, form, n, hist>>
\* the collector
Texts == [i \in 1..Steps |-> IF i % 2 = 0 THEN [k |-> "block", s |-> <<"b", "/", " ", "c">>] ELSE [k |-> "line", s |-> <<" ", " ", "a">>]]
Step == What = "held" /\ phase = "build" /\ n < Steps /\ n' = n + 1 /\ UNCHANGED <<text, phase>>
Note(op) == hist' = Append(hist, op)
Add == Step /\ Len(held) < MaxComments /\ UNCHANGED <<keep, form>>
       /\ \E a \in Places, b \in Places, t \in BOOLEAN :
            /\ a <= b
            /\ LET c == [id |-> n, start |-> a, end |-> b, trailing |-> t, k |-> Texts[n + 1].k, s |-> Texts[n + 1].s] IN
               held' = Append(held, c) /\ Note([op |-> "add", c |-> c])
RECURSIVE Insert(_, _)
Insert(s, c) == IF s = <<>> THEN <<c>> ELSE IF s[Len(s)].start <= c.start THEN Append(s, c) ELSE Append(Insert(SubSeq(s, 1, Len(s) - 1), c), s[Len(s)])
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
Sort == Step /\ held # <<>> /\ held' = Sorted(held) /\ Note([op |-> "sort"]) /\ UNCHANGED <<keep, form>>
Clear == Step /\ held # <<>> /\ held' = <<>> /\ Note([op |-> "clear"]) /\ UNCHANGED <<keep, form>>
Set == Step /\ keep' \in BOOLEAN /\ form' \in BOOLEAN /\ <<keep', form'>> # <<keep, form>> /\ Note([op |-> "set", keep |-> keep', form |-> form']) /\ UNCHANGED held
Finish == What = "held" /\ phase = "build" /\ n = Steps /\ phase' = "done" /\ UNCHANGED <<text, held, keep, form, n, hist>>
Next == Write \/ Stop \/ Add \/ Sort \/ Clear \/ Set \/ Finish
Done == phase = "done"
Ids(s) == [i \in 1..Len(s) |-> s[i].id]
Processed(c, ind) == IF ~keep THEN <<>> ELSE IF form THEN Formatted(c.k, c.s, ind) ELSE Raw(c.k, c.s)
InRange(a, b) == SelectSeq(held, LAMBDA c : c.start >= a /\ c.end <= b)
Before(p) == SelectSeq(held, LAMBDA c : c.end <= p)
After(p) == SelectSeq(held, LAMBDA c : c.start >= p)
Trailing(s) == SelectSeq(s, LAMBDA c : c.trailing)
RECURSIVE Inserted(_, _)
Inserted(s, ind) == IF s = <<>> THEN <<>>
                    ELSE (IF Head(s).trailing \/ ~keep THEN <<>> ELSE ind \o Processed(Head(s), ind) \o <<"/">>) \o Inserted(Tail(s), ind)
InsertedTrailing(s) == LET t == Trailing(s) IN IF t = <<>> \/ ~keep THEN <<>> ELSE <<" ">> \o Processed(t[1], <<>>)
Indent == <<" ", " ">>
Ordered(s) == \A i \in 1..Len(s) - 1 : s[i].start <= s[i + 1].start
Emit == Done => PrintT("@" \o ToJson(
  IF What = "texts" THEN [text |-> text, forms |-> {[k |-> k, raw |-> Raw(k, text), flat |-> Formatted(k, text, <<>>), in |-> Formatted(k, text, Indent)] : k \in {k \in Kinds : Fits(k, text)}}]
  ELSE [hist |-> hist, held |-> Ids(held), trailing |-> Ids(Trailing(held)),
        at |-> {[p |-> p, before |-> Ids(Before(p)), after |-> Ids(After(p)), inserted |-> Inserted(Before(p), Indent), tail |-> InsertedTrailing(After(p))] : p \in Places},
        ranges |-> {[a |-> a, b |-> b, ids |-> Ids(InRange(a, b))] : a \in Places, b \in Places},
        processed |-> IF keep THEN [i \in 1..Len(held) |-> Processed(held[i], Indent)] ELSE <<>>]))
\* Design properties: formatting a formatted comment changes nothing, at any indentation; no word is lost
Stable == Done /\ What = "texts" => \A k \in {k \in Kinds : Fits(k, text)}, i \in {<<>>, Indent} :
            LET f == Formatted(k, text, i) IN /\ Formatted(k, Inner(k, f), i) = f
                                              /\ Words(f) = Words(text)
                                              /\ Head(f) = Open(k)[1] /\ (k = "block" => f[Len(f)] = "*/")
Moved == Done /\ What = "texts" => \A k \in {k \in Kinds : Fits(k, text)} : LET f == Formatted(k, text, <<>>) IN Trim(text) # <<>> => (Body(text) = <<>> \/ Formatted(k, Inner(k, f), Indent) = Formatted(k, text, Indent))
SortedIs == What = "held" => LET s == Sorted(held) IN Ordered(s) /\ Len(s) = Len(held) /\ \A i, j \in 1..Len(s) : (i < j /\ s[i].start = s[j].start) => \E x, y \in 1..Len(held) : x < y /\ held[x] = s[i] /\ held[y] = s[j]
=============================================================================
