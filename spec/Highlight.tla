----------------------------- MODULE Highlight -----------------------------
(* Highlighting: every piece of a source text (a token, or text no token covers) becomes one segment with a style.  A token's
   role names scopes, and the theme gives a scope its style by the longest prefix it knows; the deepest match wins, the first
   among equals.  Exporters turn segments into text: markup and escapes are added, and nothing is dropped or reordered. *)
EXTENDS Integers, Sequences
Language == <<"mini">>
Plain == [color |-> "no", back |-> "no", bold |-> FALSE, italic |-> FALSE, under |-> FALSE]
\* the scopes of a token, most specific first: its role's own name, the general name of roles of its sort
Scopes(role, cat) == <<role.name \o Language>> \o (IF role.name = role.general THEN <<>> ELSE <<role.name>>)
                     \o <<cat \o role.general, role.general, cat \o Language>>
\* a theme is a sequence of [scope, style], each scope once
Knows(theme, sc) == \E i \in 1..Len(theme) : theme[i].scope = sc
StyleOf(theme, sc) == theme[CHOOSE i \in 1..Len(theme) : theme[i].scope = sc].style
RECURSIVE Depth(_, _, _)
Depth(theme, sc, d) == IF d = 0 THEN 0 ELSE IF Knows(theme, SubSeq(sc, 1, d)) THEN d ELSE Depth(theme, sc, d - 1)
DepthOf(theme, sc) == Depth(theme, sc, Len(sc))
Fallback(theme) == IF Knows(theme, <<"none">>) THEN StyleOf(theme, <<"none">>) ELSE Plain
Best(theme, scs) ==
  CHOOSE i \in 1..Len(scs) : /\ \A j \in 1..Len(scs) : DepthOf(theme, scs[j]) <= DepthOf(theme, scs[i])
                             /\ \A j \in 1..i - 1 : DepthOf(theme, scs[j]) < DepthOf(theme, scs[i])
Resolve(theme, scs) == LET i == Best(theme, scs) d == DepthOf(theme, scs[i]) IN
                       IF d = 0 THEN Fallback(theme) ELSE StyleOf(theme, SubSeq(scs[i], 1, d))
\* a piece is [gap, role, text]
Segment(theme, cat, p) == [text |-> p.text, style |-> IF p.gap THEN Fallback(theme) ELSE Resolve(theme, Scopes(p.role, cat))]
Segments(theme, cat, ps) == [i \in 1..Len(ps) |-> Segment(theme, cat, ps[i])]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(SubSeq(ss, 2, Len(ss)))
TextOf(ps) == Flat([i \in 1..Len(ps) |-> ps[i].text])
\* Exports are sequences of [t |-> "open", a |-> attributes], [t |-> "close"], [t |-> "raw", c |-> letter] and [t |-> "esc", c |-> letter]
If(b, x) == IF b THEN <<x>> ELSE <<>>
Special == {"lt", "gt", "amp", "quot", "apos"}
HtmlText(s) == [i \in 1..Len(s) |-> [t |-> IF s[i] \in Special THEN "esc" ELSE "raw", c |-> s[i]]]
InlineAttrs(st) == If(st.color # "no", "color") \o If(st.back # "no", "back") \o If(st.bold, "bold") \o If(st.italic, "italic") \o If(st.under, "under")
ClassAttrs(st) == If(st.bold, "bold") \o If(st.italic, "italic") \o If(st.under, "under")
Around(a, body) == IF a = <<>> THEN body ELSE <<[t |-> "open", a |-> a]>> \o body \o <<[t |-> "close"]>>
HtmlInline(segs) == Flat([i \in 1..Len(segs) |-> Around(InlineAttrs(segs[i].style), HtmlText(segs[i].text))])
HtmlClass(segs) == Flat([i \in 1..Len(segs) |-> Around(ClassAttrs(segs[i].style), HtmlText(segs[i].text))])
\* terminal codes: 1 bold, 3 italic, 4 underlined, 31 to 36 for the colours known by name and 37 for others; the background is not shown
AnsiAttrs(st) == If(st.bold, "1") \o If(st.italic, "3") \o If(st.under, "4") \o If(st.color # "no", st.color)
RawText(s) == [i \in 1..Len(s) |-> [t |-> "raw", c |-> s[i]]]
Ansi(segs) == Flat([i \in 1..Len(segs) |-> Around(AnsiAttrs(segs[i].style), RawText(segs[i].text))])
\* what a reader of an export sees
RECURSIVE Seen(_)
Seen(o) == IF o = <<>> THEN <<>> ELSE (IF o[1].t \in {"raw", "esc"} THEN <<o[1].c>> ELSE <<>>) \o Seen(SubSeq(o, 2, Len(o)))
RECURSIVE Nested(_, _)
Nested(o, open) == IF o = <<>> THEN ~open
                   ELSE CASE o[1].t = "open" -> ~open /\ Nested(SubSeq(o, 2, Len(o)), TRUE)
                          [] o[1].t = "close" -> open /\ Nested(SubSeq(o, 2, Len(o)), FALSE)
                          [] OTHER -> Nested(SubSeq(o, 2, Len(o)), open)
=============================================================================
