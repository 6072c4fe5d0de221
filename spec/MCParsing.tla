----------------------------- MODULE MCParsing ------------------------------
EXTENDS Parsing, TLC, Json
CONSTANTS Depth, Mode, Programs, KindsN
VARIABLES T, s, marks, frames, kept, hist
(* marks: usable checkpoints; frames: open speculative parses and node scopes *)
vars == <<T, s, marks, frames, kept, hist>>

ProgramsSmall == {<<3, 1, 4, 3, 0>>, <<1, 2, 3, 3>>, <<4>>, <<>>}
ProgramsLarge == {<<3, 1, 4, 3, 2, 1, 3, 4, 4, 1, 3, 0>>, <<1, 2, 3, 3, 4, 2, 3, 3, 1, 1, 4, 4, 3>>, <<4, 3, 4, 3, 4, 3, 0>>, <<3, 1, 2>>}

Init == /\ T \in Programs
        /\ s = Begin(T) /\ marks = <<>> /\ frames = <<>> /\ kept = 0 /\ hist = <<>>

Obs(x) == [pos |-> x.pos, sp |-> Len(x.st), kind |-> Kind(T, x.pos), ahead |-> [n \in 1..3 |-> Kind(T, x.pos + n - 1)], far |-> [n \in 1..3 |-> NonTrivia(T, x.pos, n - 1)]]
Log(op, a, b, res, x) == hist' = Append(hist, [op |-> op, a |-> a, b |-> b, res |-> res, obs |-> Obs(x)])

(* A checkpoint stays usable while the pending tree below it is untouched. *)
Usable(ms, sp) == SelectSeq(ms, LAMBDA m : m.sp <= sp)
UsableAt(ms, m) == SelectSeq(ms, LAMBDA x : x.sp <= m.sp /\ x.pos <= m.pos)
(* inside an open scope only what was begun in it may be undone or finished *)
Floor == IF frames = <<>> THEN 0 ELSE frames[Len(frames)].sp
FloorPos == IF frames = <<>> THEN 0 ELSE frames[Len(frames)].pos

Move(op, a, res, x) == s' = x /\ Log(op, a, 0, res, x) /\ UNCHANGED <<T, marks, frames, kept>>
Go == Len(hist) < Depth
DoBump == Go /\ Move("bump", 0, TRUE, Bump(T, s))
DoAdvance == Go /\ s.pos <= Len(T) /\ Move("advance", 0, TRUE, Advance(T, s))
DoSkip == Go /\ Move("skip", 0, TRUE, Skip(T, s))
DoEat(k) == Go /\ Move("eat", k, Kind(T, s.pos) = k, Eat(T, s, k))
DoExpect(k) == Go /\ Move("expect", k, Kind(T, s.pos) = k, Eat(T, s, k))
DoRecord(where) == Go /\ Move("record", ErrorAt(T, s, where), where = "here", s)
DoUntil(k) == Go /\ Move("until", k, TRUE, Until(T, s, {k}))
DoUntilAny == Go /\ Move("untilany", 0, TRUE, Until(T, s, {3, 0}))
DoMark == Go /\ Len(marks) < 3 /\ marks' = Append(marks, Mark(s)) /\ Log("mark", 0, 0, TRUE, s) /\ UNCHANGED <<T, s, frames, kept>>
DoRestore(j) == /\ Go /\ j <= Len(marks) /\ marks[j].sp >= Floor /\ marks[j].pos >= FloorPos
                /\ LET m == marks[j] IN s' = Back(s, m) /\ marks' = UsableAt(SubSeq(marks, 1, j), m) /\ Log("restore", j, 0, TRUE, Back(s, m))
                /\ UNCHANGED <<T, frames, kept>>
DoFinish(j, k) == /\ Go /\ j <= Len(marks) /\ marks[j].sp >= Floor
                  /\ LET x == Finish(s, marks[j].sp, k) IN s' = x /\ marks' = Usable(marks, marks[j].sp) /\ Log("finish", j, k, TRUE, x)
                  /\ UNCHANGED <<T, frames, kept>>
DoWrap(i, k) == /\ Go /\ i > Floor /\ i <= Len(s.st) /\ IsNode(s.st[i]) /\ s.st[i][1] # -105
                /\ LET x == Finish(s, i - 1, k) IN s' = x /\ marks' = Usable(marks, i - 1) /\ Log("wrap", i, k, TRUE, x)
                /\ UNCHANGED <<T, frames, kept>>
(* an independent parser takes n tokens into a node, which is then added here *)
NestedState(n) == LET z == [pos |-> s.pos, st |-> <<>>] IN IF n = 1 THEN Bump(T, z) ELSE Bump(T, Bump(T, z))
DoNested(n, k) == /\ Go
                  /\ LET z == NestedState(n) x == [pos |-> z.pos, st |-> Append(s.st, Node(z.st, 0, k))] IN s' = x /\ Log("nested", n, k, TRUE, x)
                  /\ UNCHANGED <<T, marks, frames, kept>>
(* a node scope or speculative parse: the closure's operations are the steps up to the matching end *)
DoOpen(kind) == /\ Go /\ Len(frames) < 2 /\ Len(hist) < Depth - 1
                /\ frames' = Append(frames, [kind |-> kind, pos |-> s.pos, sp |-> Len(s.st), marks |-> marks])
                /\ Log("open", kind, 0, TRUE, s) /\ UNCHANGED <<T, s, marks, kept>>
Outcome(f, ok, k) ==
    CASE f.kind = "try" -> IF ok = "ok" THEN s ELSE Back(s, f)
      [] f.kind = "node" -> Finish(s, f.sp, k)
      [] f.kind = "opt" -> IF ok = "none" THEN s ELSE Finish(s, f.sp, k)
DoClose(ok, k) == /\ Go /\ frames # <<>>
                  /\ LET f == frames[Len(frames)] x == Outcome(f, ok, k) IN
                       /\ (ok = "none") => (f.kind = "opt")
                       /\ s' = x
                       /\ marks' = f.marks    \* checkpoints taken inside do not leave the closure
                       /\ hist' = Append(hist, [op |-> "close", a |-> ok, b |-> k, res |-> ok # "err", obs |-> Obs(x)])
                  /\ frames' = SubSeq(frames, 1, Len(frames) - 1) /\ UNCHANGED <<T, kept>>

Next == \/ DoBump \/ DoAdvance \/ DoSkip \/ DoUntilAny \/ DoMark
        \/ \E k \in {3, 4} : DoEat(k) \/ DoExpect(k) \/ DoUntil(k)
        \/ \E j \in 1..3 : DoRestore(j) \/ DoFinish(j, 101) \/ (KindsN > 1 /\ DoFinish(j, 102))
        \/ \E i \in 1..Len(s.st) : DoWrap(i, 103)
        \/ \E n \in 1..2 : DoNested(n, 104)
        \/ \E k \in {"try", "node", "opt"} : DoOpen(k)
        \/ \E w \in Places : DoRecord(w)
        \/ \E r \in {"ok", "err", "none"} : DoClose(r, 105)

Complete == frames = <<>>
Emit == (Mode = "emit" /\ Len(hist) = Depth /\ Complete) => PrintT("@" \o ToJson([tokens |-> T, begin |-> Obs(Begin(T)), ops |-> hist, tree |-> Concat(s.st, 1, Len(s.st))]))

(* Design: every pending tree holds a strictly increasing sequence of token indices below the position. *)
InOrder == LET l == Leaves(Concat(s.st, 1, Len(s.st))) IN
             /\ \A i \in 1..(Len(l) - 1) : l[i] < l[i + 1]
             /\ \A i \in 1..Len(l) : l[i] < s.pos
(* trivia is never lost: an ignored token below the position is in the tree *)
NoTriviaLost == LET l == Leaves(Concat(s.st, 1, Len(s.st))) IN \A i \in 1..(s.pos - 1) : i <= Len(T) /\ T[i] \in Ignored => \E j \in 1..Len(l) : l[j] = i
MarksBelow == \A j \in 1..Len(marks) : marks[j].sp <= Len(s.st)
View == <<T, s, marks, frames, Len(hist)>>
=============================================================================
