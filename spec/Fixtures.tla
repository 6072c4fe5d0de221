------------------------------ MODULE Fixtures ------------------------------
(* Recorded expectations (oak-testing).  A directory holds fixtures (inputs) and, next to them, what lexing, parsing and
   building them gave when it was recorded.  A run of a tester compares what the language gives now with what is recorded,
   records what is missing, and replaces everything when asked to. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Files                                  \* names of possible fixtures
Testers == {"lex", "parse", "build"}
None == <<"none">>
Gone == <<"-">>                                  \* no such fixture
Raw == <<"raw">>                                 \* a fixture that is not text
VARIABLE dir                                     \* [text : fixture contents, rec : recorded expectations by tester, old : expectations under their former name, which fixtures differing only in extension share]

(* ---- what the language gives: version 2 rejects "!" and gives up on "!!"; version 3 takes too long ---- *)
Letter == {"a", "b", "e", "~"}                   \* "e~" is one letter of two bytes; positions are bytes
RECURSIVE Run(_, _)                              \* first position after i that is not a letter / not a blank
Run(x, i) == IF i < Len(x) /\ ((x[i] \in Letter /\ x[i + 1] \in Letter) \/ (x[i] = " " /\ x[i + 1] = " ")) THEN Run(x, i + 1) ELSE i
Sort(c) == IF c \in Letter THEN "word" ELSE IF c = " " THEN "blank" ELSE "bang"
RECURSIVE Toks(_, _)
Toks(x, i) == IF i > Len(x) THEN <<>> ELSE LET j == Run(x, i) IN <<[k |-> Sort(x[i]), s |-> i - 1, e |-> j]>> \o Toks(x, j + 1)
Text(x, t) == SubSeq(x, t.s + 1, t.e)
Refused(v, x) == v = 2 /\ \E i \in 2..Len(x) : x[i] = "!" /\ x[i - 1] = "!"
RECURSIVE At(_, _)                               \* where the bangs are
At(x, i) == IF i > Len(x) THEN <<>> ELSE (IF x[i] = "!" THEN <<i - 1>> ELSE <<>>) \o At(x, i + 1)
Faults(v, x) == (IF v = 2 THEN At(x, 1) ELSE <<>>) \o (IF Refused(v, x) THEN <<-1>> ELSE <<>>)
Real(x) == SelectSeq(Toks(x, 1), LAMBDA t : t.k # "blank")
End(x) == [k |-> "end", s |-> Len(x), e |-> Len(x)]
LexOut(v, x) == LET ts == IF Refused(v, x) THEN <<>> ELSE Append(Real(x), End(x)) IN
  [ok |-> Faults(v, x) = <<>>, tokens |-> [i \in 1..Len(ts) |-> <<ts[i].k, Text(x, ts[i]), ts[i].s, ts[i].e>>], faults |-> Faults(v, x)]
(* The tree: a node for each word, with the blank after it; everything else is a leaf of the root. *)
Words(x) == LET ts == Toks(x, 1) IN {i \in 1..Len(ts) : ts[i].k = "word"}
Followed(x, i) == LET ts == Toks(x, 1) IN i < Len(ts) /\ ts[i + 1].k = "blank"
RECURSIVE Nodes(_, _)
Nodes(x, i) == LET ts == Toks(x, 1) IN
  IF i > Len(ts) THEN <<>> ELSE (IF ts[i].k = "word" THEN <<IF Followed(x, i) THEN <<2, ts[i + 1].e - ts[i].s>> ELSE <<1, ts[i].e - ts[i].s>>>> ELSE <<>>) \o Nodes(x, i + 1)
RECURSIVE Sum(_, _)
Sum(ns, k) == IF k = 0 THEN 0 ELSE Sum(ns, k - 1) + ns[k][2]
RECURSIVE Count(_, _)
Count(ns, k) == IF k = 0 THEN 0 ELSE Count(ns, k - 1) + ns[k][1]
ParseOut(v, x) ==
  IF Refused(v, x) THEN [ok |-> FALSE, nodes |-> <<>>, leaves |-> 0, rest |-> 0, faults |-> Faults(v, x)]
  ELSE LET ns == Nodes(x, 1) IN [ok |-> TRUE, nodes |-> ns, leaves |-> Len(Toks(x, 1)) + 1 - Count(ns, Len(ns)), rest |-> Len(x) - Sum(ns, Len(ns)), faults |-> Faults(v, x)]
BuildOut(v, x) ==
  IF Refused(v, x) THEN [ok |-> FALSE, words |-> <<>>, faults |-> Faults(v, x)]
  ELSE LET ws == SelectSeq(Toks(x, 1), LAMBDA t : t.k = "word") IN [ok |-> TRUE, words |-> [i \in 1..Len(ws) |-> Text(x, ws[i])], faults |-> Faults(v, x)]
Out(T, v, x) == CASE T = "lex" -> LexOut(v, x) [] T = "parse" -> ParseOut(v, x) [] OTHER -> BuildOut(v, x)

(* ---- records: none, something that is no record, a record of another output, a record ---- *)
Junk == <<"junk">>
Other(T) == <<"other", T>>
Record(T, o) == <<"out", T, o>>
(* The builder's records have nothing the others' lack, except what was built, which may be missing. *)
Readable(T, r) == Len(r) > 1 /\ (r[2] = T \/ T = "build")
Agrees(T, r, now) == IF r[1] = "out" /\ r[2] # T THEN ~r[3].ok /\ ~now[3].ok /\ r[3].faults = now[3].faults ELSE r = now

(* ---- editing the directory ---- *)
Stem(f) == SubSeq(f, 1, Len(f) - 1)
Stems == {Stem(f) : f \in Files}
InitDir == dir = [text |-> [f \in Files |-> Gone], rec |-> [T \in Testers |-> [f \in Files |-> None]], old |-> [s \in Stems |-> None]]
Put(d, f, x) == [d EXCEPT !.text[f] = x]
Spoil(d, T, f, how) == [d EXCEPT !.rec[T][f] = IF how = "forget" THEN None ELSE IF how = "junk" THEN Junk ELSE IF @ = None THEN None ELSE Other(T)]
Retire(d, T, f) == IF d.rec[T][f] = None THEN d ELSE [d EXCEPT !.rec[T][f] = None, !.old[Stem(f)] = d.rec[T][f]]

(* ---- a tester visits one fixture ---- *)
Moved(d, T, f) == IF d.rec[T][f] = None /\ d.old[Stem(f)] # None THEN [d EXCEPT !.rec[T][f] = d.old[Stem(f)], !.old[Stem(f)] = None] ELSE d
Visit(d, T, v, force, f) ==
  IF d.text[f] = Raw THEN [dir |-> d, res |-> "unreadable"]
  ELSE IF v = 3 THEN [dir |-> d, res |-> "late"]
  ELSE LET m == Moved(d, T, f)  now == Record(T, Out(T, v, d.text[f])) IN
    IF m.rec[T][f] = None \/ force THEN [dir |-> [m EXCEPT !.rec[T][f] = now], res |-> IF T = "parse" /\ ~force THEN "recorded" ELSE "ok"]
    ELSE [dir |-> m, res |-> IF ~Readable(T, m.rec[T][f]) THEN "broken" ELSE IF Agrees(T, m.rec[T][f], now) THEN "ok" ELSE "differs"]
(* A run visits the fixtures with the requested extensions, in any order, up to the first that is not in order. *)
Fixture(d, f, exts) == d.text[f] # Gone /\ f[Len(f)] \in exts
Due(d, exts) == {f \in Files : Fixture(d, f, exts)}
=============================================================================
