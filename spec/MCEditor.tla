------------------------------ MODULE MCEditor ------------------------------
EXTENDS Editor, TLC, Json, SequencesExt
CONSTANTS Items, MaxLen, Mode, MaxSteps
VARIABLES hist, done
Tokens == Items
FilesA == {"a"}
FilesABC == {"a", "d/a", "d/e/b"}
Small == {N("x"), R("x"), R("m"), D("x"), D("y"), Anon, Blk, End}
Tiny == {R("x"), D("x"), End, Anon}
Large == {N("x"), N("y"), R("x"), R("y"), R("m"), R("x::y"), R("?::x"), D("x"), D("y"), D("m"), Anon, Blk, Fill, End}
Pairs(S) == {<<p[1], p[2]>> : p \in S}
Reply(fs, f) ==
  LET c == fs[f] IN
    [file |-> f, items |-> c, symbols |-> Symbols(c), spans |-> [i \in 1..Len(c) |-> Span(c, i)],
     uses |-> [x \in Names |-> Uses(c, x, 1)], definition |-> [i \in 1..Len(c) |-> Definition(fs, f, i)]]
Observe(fs) ==
  [files |-> SetToSeq({Reply(fs, f) : f \in Live(fs)}), gone |-> SetToSeq(Files \ Live(fs)),
   search |-> [q \in {"", "::", "x", "y", "x::y", "y::x"} |-> SetToSeq(Search(fs, q))],
   defs |-> [x \in Names \cup {"x::y", "?::x"} |-> SetToSeq(Defs(fs, x))]]
MCInit == Init /\ hist = <<>> /\ done = FALSE
Step(op, f, g) == hist' = Append(hist, [op |-> op, f |-> f, g |-> g, now |-> files'])
Room(f) == files[f] # Absent /\ Len(files[f]) < MaxLen
Finish == Len(hist) = MaxSteps /\ ~done /\ done' = TRUE /\ UNCHANGED <<files, hist>>
MCNext == \/ Finish
          \/ /\ Len(hist) < MaxSteps /\ UNCHANGED done
             /\ \/ \E f \in Files : files[f] = Absent /\ \E a, b \in Tokens : Write(f, <<a, b>>) /\ Step("write", f, f)
                \/ \E f \in Files, t \in Tokens : Room(f) /\ \E p \in 0..Len(files[f]) : Insert(f, p, t) /\ Step("insert", f, f)
                \/ \E f \in Files, t \in Tokens : Room(f) /\ Len(files[f]) + 2 <= MaxLen /\ Write(f, <<D("x"), t>> \o files[f]) /\ Step("wrap", f, f)
                \/ \E f \in Files : files[f] # Absent /\ \E p \in 1..Len(files[f]) : Delete(f, p) /\ Step("delete", f, f)
                \/ \E f \in Files : Drop(f) /\ Step("remove", f, f)
                \/ \E f, g \in Files : Move(f, g) /\ Step("move", f, g)
Spec == MCInit /\ [][MCNext]_<<files, hist, done>>
(* contents one after another *)
GrowNext == \E f \in Files : IF files[f] = Absent THEN Write(f, <<>>) /\ UNCHANGED <<hist, done>> ELSE Len(files[f]) < MaxLen /\ \E t \in Tokens : Write(f, Append(files[f], t)) /\ UNCHANGED <<hist, done>>
EmitOne == (Mode = "one" /\ Live(files) # {}) => PrintT("@" \o ToJson(<<[op |-> "write", f |-> "a", g |-> "a", now |-> Observe(files)]>>))
Emit == (Mode = "emit" /\ done) => PrintT("@" \o ToJson([k \in 1..Len(hist) |-> [hist[k] EXCEPT !.now = Observe(@)]]))
View == files

(* ---- design properties ---- *)
Everywhere(P(_, _)) == \A f \in Live(files) : \A i \in 1..Len(files[f]) : P(files[f], i)
InFile == \A p \in All(files) : p[1] \in Live(files) /\ 0 <= p[2].s /\ p[2].s < p[2].e /\ p[2].e <= Len(files[p[1]])
NestP(c, i) == \A j \in 1..Len(c) : (Opens(c[i]) /\ Opens(c[j]) /\ i < j) => (Closing(c, j) <= Closing(c, i) \/ Closing(c, i) <= j - 1)
Nest == Everywhere(NestP)
ParentP(c, i) == LET p == Parent(c, i) IN p # 0 => Opens(c[p]) /\ p < i /\ i <= Closing(c, p) /\ Top(c, i) = Top(c, p)
Parents == Everywhere(ParentP)
(* a container of a symbol is itself a symbol of the file around it *)
Boxed == \A p \in All(files) : p[2].box # "" => \E q \in All(files) : q[1] = p[1] /\ q[2].name = p[2].box /\ q[2].s < p[2].s /\ p[2].e <= q[2].e
Consistent == \A x \in Names : Defs(files, x) \subseteq Search(files, x) /\ Search(files, x) \subseteq Search(files, "") /\ Search(files, "") = All(files)
Answered == \A f \in Live(files) : \A i \in 1..Len(files[f]) : Definition(files, f, i).kind = "symbol" => Defs(files, Definition(files, f, i).at) # {}
=============================================================================
