---------------------------- MODULE SymbolsLin ----------------------------
(* Linearizability of recorded concurrent histories of the symbol index.   *)
EXTENDS Symbols, TLC, Json, IOUtils, Integers
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES hid, done, d

Ops(k) == H[k].ops
AsSet(q) == {q[i] : i \in DOMAIN q}
LinInit == hid \in 1..Len(H) /\ done = {} /\ d = InitDefs
CanGo(i) == /\ i \notin done
            /\ \A j \in DOMAIN Ops(hid) : (j \notin done /\ j # i) => Ops(hid)[j].ret > Ops(hid)[i].inv
Take(o) ==
    CASE o.op = "update" -> d' = [d EXCEPT ![o.f] = o.syms]
      [] o.op = "lookup" -> d' = d /\ LookupOk(d, o.q, AsSet(o.res))
      [] o.op = "file"   -> d' = d /\ o.res = d[o.f]
      [] o.op = "query"  -> d' = d /\ AsSet(o.res) = Matching(d, AsSet(o.hits)) /\ Len(o.res) = Cardinality(AsSet(o.res))
LinNext == \E i \in DOMAIN Ops(hid) : CanGo(i) /\ Take(Ops(hid)[i]) /\ done' = done \cup {i} /\ UNCHANGED hid
Mark == done = DOMAIN Ops(hid) => TLCSet(hid, TRUE)
ASSUME \A k \in 1..Len(H) : TLCSet(k, FALSE)
Accepted == \A k \in 1..Len(H) : TLCGet(k) = TRUE \/ PrintT("@" \o ToJson([bad |-> k]))
=============================================================================
