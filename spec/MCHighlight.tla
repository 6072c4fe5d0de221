---------------------------- MODULE MCHighlight ----------------------------
EXTENDS Highlight, TLC, Json
CONSTANTS Steps, MinSteps, MinKeys, MaxKeys, MaxPieces, MaxText, Kinds, Cats, Letters, Looks, Gaps
VARIABLES cat, theme, pieces, n, phase
vars == <<cat, theme, pieces, n, phase>>
Role(k) == CASE k = "keyword" -> [name |-> <<"keyword">>, general |-> <<"keyword">>]
             [] k = "control" -> [name |-> <<"keyword", "control">>, general |-> <<"keyword">>]
             [] k = "arrow" -> [name |-> <<"keyword", "operator", "arrow">>, general |-> <<"keyword", "operator">>]
             [] k = "number" -> [name |-> <<"number">>, general |-> <<"constant">>]
             [] k = "blank" -> [name |-> <<"punctuation", "whitespace">>, general |-> <<"punctuation", "whitespace">>]
             [] k = "note" -> [name |-> <<"comment", "line">>, general |-> <<"comment">>]
Keys == UNION {UNION {{SubSeq(sc, 1, d) : d \in 1..Len(sc)} : sc \in {Scopes(Role(k), cat)[i] : i \in 1..Len(Scopes(Role(k), cat))}} : k \in Kinds} \cup {<<"none">>}
Look(l) == CASE l = "red" -> [Plain EXCEPT !.color = "31"]
             [] l = "green" -> [Plain EXCEPT !.color = "32", !.bold = TRUE]
             [] l = "blue" -> [Plain EXCEPT !.color = "34", !.italic = TRUE]
             [] l = "yellow" -> [Plain EXCEPT !.color = "33", !.back = "31"]
             [] l = "pink" -> [Plain EXCEPT !.color = "35", !.under = TRUE]
             [] l = "cyan" -> [Plain EXCEPT !.color = "36", !.bold = TRUE, !.italic = TRUE, !.under = TRUE]
             [] l = "odd" -> [Plain EXCEPT !.color = "37"]
             [] l = "bold" -> [Plain EXCEPT !.bold = TRUE]
             [] l = "back" -> [Plain EXCEPT !.back = "36"]
             [] l = "plain" -> Plain
AllLooks == [color : {"no", "31", "37"}, back : {"no", "32"}, bold : BOOLEAN, italic : BOOLEAN, under : BOOLEAN]
StyleSet == IF "all" \in Looks THEN AllLooks ELSE {Look(l) : l \in Looks}
Init == /\ cat \in {<<c>> : c \in Cats} /\ theme = <<>> /\ pieces = <<>> /\ n = 0 /\ phase = "work"
Step == phase = "work" /\ n < Steps /\ n' = n + 1 /\ UNCHANGED <<cat, phase>>
Style == /\ Step /\ Len(theme) < MaxKeys /\ pieces = <<>> /\ UNCHANGED pieces
         /\ \E sc \in Keys, st \in StyleSet : ~Knows(theme, sc) /\ theme' = Append(theme, [scope |-> sc, style |-> st])
Piece == /\ Step /\ Len(theme) >= MinKeys /\ Len(pieces) < MaxPieces /\ UNCHANGED theme
         /\ \E k \in Kinds, l \in Letters : pieces' = Append(pieces, [gap |-> FALSE, role |-> Role(k), kind |-> k, text |-> <<l>>])
Gap == /\ Step /\ Gaps /\ Len(theme) >= MinKeys /\ Len(pieces) < MaxPieces /\ UNCHANGED theme /\ (IF pieces = <<>> THEN TRUE ELSE ~pieces[Len(pieces)].gap)
       /\ \E l \in Letters : pieces' = Append(pieces, [gap |-> TRUE, role |-> Role("keyword"), kind |-> "gap", text |-> <<l>>])
Longer == /\ Step /\ pieces # <<>> /\ Len(pieces[Len(pieces)].text) < MaxText /\ UNCHANGED theme
          /\ \E l \in Letters : pieces' = [pieces EXCEPT ![Len(pieces)].text = Append(@, l)]
Finish == phase = "work" /\ n >= MinSteps /\ phase' = "done" /\ UNCHANGED <<cat, theme, pieces, n>>
Next == Style \/ Piece \/ Gap \/ Longer \/ Finish
Segs == Segments(theme, cat, pieces)
ScopesOf(p) == IF p.gap THEN <<>> ELSE Scopes(p.role, cat)
Emit == phase = "done" => PrintT("@" \o ToJson([cat |-> cat[1], theme |-> theme, segs |-> Segs,
          pieces |-> [i \in 1..Len(pieces) |-> [kind |-> pieces[i].kind, scopes |-> ScopesOf(pieces[i]), text |-> pieces[i].text]],
          none |-> Fallback(theme), inline |-> HtmlInline(Segs), class |-> HtmlClass(Segs), ansi |-> Ansi(Segs)]))
\* Design properties
Covers == Flat([i \in 1..Len(Segs) |-> Segs[i].text]) = TextOf(pieces)
Readable == /\ Seen(HtmlInline(Segs)) = TextOf(pieces) /\ Seen(HtmlClass(Segs)) = TextOf(pieces) /\ Seen(Ansi(Segs)) = TextOf(pieces)
WellNested == Nested(HtmlInline(Segs), FALSE) /\ Nested(HtmlClass(Segs), FALSE) /\ Nested(Ansi(Segs), FALSE)
Escaped == \A o \in {HtmlInline(Segs), HtmlClass(Segs)} : \A i \in 1..Len(o) : o[i].t = "raw" => o[i].c \notin Special
\* a scope of its own in the theme decides; a theme that knows only other scopes leaves the fallback
Exact == \A i \in 1..Len(pieces) : (~pieces[i].gap /\ Knows(theme, Scopes(pieces[i].role, cat)[1])) => Segs[i].style = StyleOf(theme, Scopes(pieces[i].role, cat)[1])
InTheme == \A i \in 1..Len(Segs) : Segs[i].style = Plain \/ \E j \in 1..Len(theme) : theme[j].style = Segs[i].style
=============================================================================
