--------------------------- MODULE FixturesTrace ---------------------------
(* Recorded histories: each run must be explained by visiting the fixtures in some order. *)
EXTENDS Fixtures, TLC, TLCExt, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES hid, at, todo, res
O == H[hid][at]
F4 == {<<"a", "x">>, <<"d", "b.v2", "x">>, <<"a", "y">>, <<"k", "json">>}
TInit == hid \in 1..Len(H) /\ at = 1 /\ InitDir /\ todo = {} /\ res = <<"begin">>
Simple(d) == dir' = d /\ at' = at + 1 /\ UNCHANGED <<hid, todo, res>>
Set(s) == {s[k] : k \in 1..Len(s)}
\* what was seen after a run: [res, files : <<file, tester, record>>..., old : <<file, record>>..., kept]
Seen(d) == /\ \A T \in Testers, f \in Files : d.rec[T][f] # None => <<f, T, d.rec[T][f]>> \in Set(O.rec)
           /\ \A k \in 1..Len(O.rec) : d.rec[O.rec[k][2]][O.rec[k][1]] = O.rec[k][3]
           /\ \A s \in Stems : d.old[s] # None => <<s, d.old[s]>> \in Set(O.old)
           /\ \A k \in 1..Len(O.old) : d.old[O.old[k][1]] = O.old[k][2]
           /\ O.kept
TNext ==
  /\ at <= Len(H[hid])
  /\ CASE O.op = "put" -> Simple(Put(dir, O.f, O.x))
       [] O.op = "spoil" -> Simple(Spoil(dir, O.T, O.f, O.how))
       [] O.op = "retire" -> Simple(Retire(dir, O.T, O.f))
       [] O.op = "run" ->
            IF res = <<"begin">> THEN todo' = Due(dir, Set(O.exts)) /\ res' = <<"ok">> /\ UNCHANGED <<hid, at, dir>>
            ELSE IF todo = {} THEN res = O.res /\ Seen(dir) /\ at' = at + 1 /\ res' = <<"begin">> /\ UNCHANGED <<hid, todo, dir>>
            ELSE \E f \in todo : LET r == Visit(dir, O.T, O.v, O.force, f) IN
                   /\ dir' = r.dir /\ UNCHANGED <<hid, at>>
                   /\ IF r.res = "ok" THEN todo' = todo \ {f} /\ UNCHANGED res ELSE todo' = {} /\ res' = <<r.res, IF r.res \in {"differs", "recorded"} THEN f ELSE <<>>>>
(* how far every history is explained *)
Mark == TLCGet(hid) < at => TLCSet(hid, at)
ASSUME \A k \in 1..Len(H) : TLCSet(k, 0)
Accepted == \A k \in 1..Len(H) : TLCGet(k) = Len(H[k]) + 1 \/ PrintT("@" \o ToJson([bad |-> k, step |-> TLCGet(k)]))
=============================================================================
