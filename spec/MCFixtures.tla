----------------------------- MODULE MCFixtures -----------------------------
EXTENDS Fixtures, TLC, Json
CONSTANTS Mode, Steps, Texts, Exts, Who
VARIABLES todo, run, hist
vars == <<dir, todo, run, hist>>
F1 == {<<"a", "x">>}
F2 == {<<"a", "x">>, <<"a", "y">>}
F4 == {<<"a", "x">>, <<"d", "b.v2", "x">>, <<"a", "y">>, <<"k", "json">>}
ExtX == {{"x"}}
ExtXY == {{"x"}, {"x", "y"}}
ExtAll == {{"x"}, {"x", "y"}, {"x", "json"}, {"json", "y"}, {}}
TextsD == {<<"a">>, <<"a", " ">>, <<"!", "!">>}
TextsD2 == {<<"!", "!">>}
TextsS == {<<"a">>, <<"a", " ">>, <<"a", "!">>, <<"!", "a">>, <<"!", "!">>}
TextsL == {<<>>, <<"a">>, <<"b">>, <<"a", " ">>, <<" ", "a">>, <<"a", " ", "b">>, <<"a", " ", " ", "b">>, <<"e", "~", "b">>, <<"e", "~", " ", "!">>, <<"!">>, <<"!", "!">>, <<"a", "!", "b">>, <<"!", " ", "!">>, <<"!", "a">>, <<"a", "!">>, Raw}

Idle == [on |-> FALSE, T |-> "", v |-> 0, force |-> FALSE, exts |-> {}, res |-> "ok", at |-> <<>>]
Init == InitDir /\ todo = {} /\ run = Idle /\ hist = <<>>
(* ---- histories: what to do, one thing after the other ---- *)
Log(e) == hist' = Append(hist, e) /\ UNCHANGED <<dir, todo, run>>
Versions == IF Mode = "far" /\ Len(hist) = 6 THEN {1, 2, 3} ELSE {1, 2}
First == Len(hist) = 0
Last == Len(hist) = Steps - 1
DoPut == \E f \in Files, x \in Texts : Log([op |-> "put", f |-> f, x |-> x])
DoDrop == \E f \in Files : Log([op |-> "put", f |-> f, x |-> Gone])
DoSpoil == \E f \in Files, T \in Who, how \in {"forget", "junk", "other"} : Log([op |-> "spoil", f |-> f, T |-> T, how |-> how])
DoRetire == \E f \in Files, T \in Who : Log([op |-> "retire", f |-> f, T |-> T])
DoRun == \E T \in Who, v \in Versions, force \in BOOLEAN, exts \in Exts : Log([op |-> "run", T |-> T, v |-> v, force |-> force, exts |-> exts])
Next == /\ Len(hist) < Steps
        /\ IF First THEN DoPut ELSE IF Last THEN DoRun ELSE DoPut \/ DoDrop \/ DoSpoil \/ DoRetire \/ DoRun
(* in long histories most things done are runs *)
FarNext == /\ Len(hist) < Steps
           /\ IF Len(hist) < 3 THEN DoPut ELSE IF Last THEN Log([op |-> "run", T |-> "lex", v |-> 1, force |-> FALSE, exts |-> {"x", "y", "json"}]) ELSE IF Len(hist) % 2 = 0 THEN DoRun ELSE DoPut \/ DoDrop \/ DoSpoil \/ DoRetire
(* every text after every other *)
PairNext == /\ Len(hist) < Steps
            /\ IF Len(hist) % 2 = 0 THEN DoPut ELSE \E T \in Who, v \in Versions, exts \in Exts : (Last => T = hist[2].T) /\ Log([op |-> "run", T |-> T, v |-> v, force |-> FALSE, exts |-> exts])
Emit == (Mode # "design" /\ Len(hist) = Steps) => PrintT("@" \o ToJson(hist))

(* ---- design: the directory changes, and runs visit one fixture after the other ---- *)
Edit(d) == ~run.on /\ dir' = d /\ run' = Idle /\ UNCHANGED <<todo, hist>>
Begin(T, v, force, exts) == ~run.on /\ run' = [on |-> TRUE, T |-> T, v |-> v, force |-> force, exts |-> exts, res |-> "ok", at |-> <<>>] /\ todo' = Due(dir, exts) /\ UNCHANGED <<dir, hist>>
Step == /\ run.on
        /\ IF todo = {} THEN run' = [run EXCEPT !.on = FALSE] /\ UNCHANGED <<dir, todo, hist>>
           ELSE \E f \in todo : LET r == Visit(dir, run.T, run.v, run.force, f) IN
             /\ dir' = r.dir /\ UNCHANGED hist
             /\ IF r.res = "ok" THEN todo' = todo \ {f} /\ UNCHANGED run ELSE todo' = {} /\ run' = [run EXCEPT !.on = FALSE, !.res = r.res, !.at = f]
DNext == \/ \E f \in Files, x \in Texts \cup {Gone} : Edit(Put(dir, f, x))
         \/ \E f \in Files, T \in Who, how \in {"forget", "junk", "other"} : Edit(Spoil(dir, T, f, how))
         \/ \E f \in Files, T \in Who : Edit(Retire(dir, T, f))
         \/ \E T \in Who, v \in {1, 2}, force \in BOOLEAN, exts \in Exts : Begin(T, v, force, exts)
         \/ Step
Ended == ~run.on /\ run.T # ""
Now(f) == Record(run.T, Out(run.T, run.v, dir.text[f]))
(* A run that succeeds means that everything it was asked about is recorded as it is now. *)
Sound == (Ended /\ run.res = "ok") => \A f \in Due(dir, run.exts) : dir.rec[run.T][f] = Now(f)
(* A run that fails names a fixture for a reason. *)
Blames == Ended /\ run.res # "ok" =>
  /\ run.at \in Due(dir, run.exts)
  /\ run.res = "recorded" => dir.rec[run.T][run.at] = Now(run.at)
  /\ run.res = "differs" => dir.rec[run.T][run.at] # Now(run.at) /\ ~run.force
  /\ run.res = "broken" => ~Readable(run.T, dir.rec[run.T][run.at]) /\ ~run.force
(* Runs leave the fixtures, other testers' records, and other files' records alone. *)
Careful == [][run.on => /\ dir'.text = dir.text
                        /\ \A T \in Testers \ {run.T} : dir'.rec[T] = dir.rec[T]
                        /\ \A f \in Files \ Due(dir, run.exts) : dir'.rec[run.T][f] = dir.rec[run.T][f]]_vars
(* without force a record that was there is never changed *)
Keeps == [][run.on /\ ~run.force => \A f \in Files : dir.rec[run.T][f] # None => dir'.rec[run.T][f] = dir.rec[run.T][f]]_vars
=============================================================================
