---------------------------- MODULE MCFormatter ----------------------------
EXTENDS Formatter, TLC, Json
CONSTANTS Steps, MinSteps, MaxRules, Prios, Widths, Kinds, Does, MaxArity
VARIABLES stack, n, texts, rules, added, phase
mc == <<vars, stack, n, texts, rules, added, phase>>
Alphabet == <<"a", "b", "c", "d", "e", "f", "g", "h", "j", "k", "l", "m", "o", "p", "q", "r", "t", "u", "v", "w", "x", "y">>
Init == /\ stack = <<>> /\ n = 0 /\ texts = 0 /\ phase = "build" /\ rules = StandardRules /\ added = <<>>
        /\ work = <<>> /\ out = <<>> /\ col = 0 /\ cfg = [max |-> 0, unit |-> 1, trim |-> TRUE, final |-> TRUE]
Building == phase = "build" /\ n < Steps /\ n' = n + 1 /\ UNCHANGED <<vars, phase>>
Leaf(t) == stack' = Append(stack, t) /\ UNCHANGED <<rules, added>>
Word == Building /\ texts < Len(Alphabet) /\ texts' = texts + 1
        /\ \E w \in 1..3 : Leaf(Token("other", [i \in 1..w |-> Alphabet[texts + 1]]))
Mark == Building /\ UNCHANGED texts /\ \E t \in {Token("punct", <<",">>), Token("punct", <<";">>), Token("other", <<",">>)} : Leaf(t)
Blank == Building /\ UNCHANGED texts /\ Leaf(Token("other", <<" ">>))
Wrap == Building /\ UNCHANGED <<texts, rules, added>>
        /\ \E r \in {"container", "statement", "plain"}, k \in 0..MaxArity : Len(stack) >= k /\ stack' = SubSeq(stack, 1, Len(stack) - k) \o <<Node(r, SubSeq(stack, Len(stack) - k + 1, Len(stack)))>>
Add == /\ Building /\ UNCHANGED <<stack, texts>> /\ Len(added) < MaxRules
       /\ \E p \in Prios, o \in Kinds, d \in Does, h \in BOOLEAN :
            LET r == [prio |-> p, on |-> o, does |-> d, hates |-> h, own |-> TRUE] IN
            rules' = AddRule(rules, r) /\ added' = Append(added, [rule |-> r, ok |-> Accepts(rules, r)])
Whole == Node("plain", stack)
Open == /\ phase = "build" /\ n >= MinSteps /\ phase' = "print" /\ UNCHANGED <<stack, n, texts, rules, added>>
        /\ \E m \in Widths : cfg' = [max |-> m, unit |-> 2, trim |-> TRUE, final |-> TRUE]
        /\ work' = <<>> /\ out' = Layout(ToDoc(Whole, rules), cfg') /\ col' = 0
Next == Word \/ Mark \/ Blank \/ Wrap \/ Add \/ Open
Done == phase = "print"
Emit == Done => PrintT("@" \o ToJson([tree |-> Whole, rules |-> added, cfg |-> cfg, out |-> out, changed |-> out # Source(Whole)]))
\* Design properties: rules stay in order of priority; without rules of its own the formatter changes blanks and lines only
Sorted == \A i \in 1..Len(rules) - 1 : rules[i].prio >= rules[i + 1].prio
NothingLost == (Done /\ added = <<>>) => Visible(out) = Visible(Source(Whole))
NoClash == \A i, j \in 1..Len(rules) : i # j => ~Clash(rules[i], rules[j])
=============================================================================
