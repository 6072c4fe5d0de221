----------------------------- MODULE Formatter -----------------------------
(* The formatter: a syntax tree becomes a document by rules, tried from the highest priority down (equal priorities in the
   order they were added) until one yields a document; where none does, a node is its children in order and a token is its
   text. The built-in rules indent containers, end statements with a line, and let the line break after commas. *)
EXTENDS Printer
Token(r, s) == [k |-> "tok", role |-> r, s |-> s]
Node(r, ch) == [k |-> "node", role |-> r, ch |-> ch]
\* a rule: its priority, what it is for, what it does ("pass" yields nothing) and whether it refuses other rules for the same
BuiltIn == <<[prio |-> 10, on |-> "container", does |-> "indent", hates |-> FALSE, own |-> FALSE],
             [prio |-> 5, on |-> "statement", does |-> "line", hates |-> FALSE, own |-> FALSE],
             [prio |-> 6, on |-> "comma", does |-> "space", hates |-> FALSE, own |-> FALSE]>>
Clash(a, b) == a.own /\ b.own /\ a.on = b.on /\ (a.hates \/ b.hates)
Accepts(rules, r) == \A i \in 1..Len(rules) : ~Clash(rules[i], r)
\* the position of a new rule: after all rules of at least its priority
Place(rules, r) == CHOOSE p \in 0..Len(rules) : (\A i \in 1..p : rules[i].prio >= r.prio) /\ (\A i \in p + 1..Len(rules) : rules[i].prio < r.prio)
AddRule(rules, r) == IF Accepts(rules, r) THEN LET p == Place(rules, r) IN SubSeq(rules, 1, p) \o <<r>> \o SubSeq(rules, p + 1, Len(rules)) ELSE rules
StandardRules == <<BuiltIn[1], BuiltIn[3], BuiltIn[2]>>
What(t) == IF t.k = "tok" /\ t.role = "punct" /\ t.s = <<",">> THEN "comma" ELSE t.role
Inside(path, role) == \E i \in 1..Len(path) : path[i] = role
\* path: the roles of the nodes from the root to the node (or to the node a token belongs to)
Applies(r, t, path) ==
  CASE r.on = "within" -> t.k = "node" /\ t.role = "plain" /\ Inside(path, "container")
    [] r.on = "below" -> t.k = "node" /\ t.role = "plain" /\ Len(path) > 1 /\ path[Len(path) - 1] = "statement"
    [] r.on = "inner" -> t.k = "tok" /\ What(t) = "other" /\ Inside(path, "statement")
    [] OTHER -> r.on = What(t)
RECURSIVE First(_, _, _, _)
First(rules, t, path, i) == IF i > Len(rules) THEN 0 ELSE IF Applies(rules[i], t, path) /\ rules[i].does # "pass" THEN i ELSE First(rules, t, path, i + 1)
RECURSIVE DocOf(_, _, _)
DocOf(t, rules, above) ==
  LET path == IF t.k = "tok" THEN above ELSE Append(above, t.role)
      i == First(rules, t, path, 1)
      Inner == IF t.k = "tok" THEN TextOf(t.s) ELSE Cat([j \in 1..Len(t.ch) |-> DocOf(t.ch[j], rules, path)]) IN
  IF i = 0 THEN Inner
  ELSE CASE rules[i].does = "indent" -> Group(Indent(Cat(<<Line, Inner>>)))
         [] rules[i].does = "line" -> Cat(<<Inner, Line>>)
         [] rules[i].does = "space" -> Cat(<<Inner, SoftLineSpace>>)
         [] rules[i].does = "mark" -> Cat(<<TextOf(<<"<">>), Inner, TextOf(<<"z">>)>>)
         [] rules[i].does = "hide" -> Nil
ToDoc(t, rules) == DocOf(t, rules, <<>>)
RECURSIVE Source(_), SourceTo(_, _)
SourceTo(ch, j) == IF j = 0 THEN <<>> ELSE SourceTo(ch, j - 1) \o Source(ch[j])
Source(t) == IF t.k = "tok" THEN t.s ELSE SourceTo(t.ch, Len(t.ch))
=============================================================================
