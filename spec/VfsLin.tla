------------------------------ MODULE VfsLin ------------------------------
(* Linearizability of recorded concurrent histories of the real store with *)
(* respect to Vfs.  One TLC behaviour per history: the calls are placed    *)
(* one after the other, none before a call that had already returned.      *)
(* Ids are symbolic: the labels of a history are bound to issued numbers   *)
(* as they are observed.                                                   *)
EXTENDS Vfs, TLC, TLCExt, Json, IOUtils, Integers

H == ndJsonDeserialize(IOEnv.TRACE)
Labels == 1..12

VARIABLES hid, done, bind, deny

Ops(k) == H[k].ops

Start(pre) ==
    IF pre = 0 THEN InitVfs
    ELSE IF pre = 1 THEN WriteTo(InitVfs, "mem:/a", "c1")
    ELSE WriteTo(WriteTo(InitVfs, "mem:/a", "c1"), "mem:/b", "c1")

LinInit == /\ hid \in 1..Len(H)
           /\ s = Start(H[hid].pre)
           /\ done = {}
           /\ bind = [l \in Labels |-> IF l <= H[hid].pre THEN l ELSE 0]
           /\ deny = [l \in Labels |-> {}]

CanGo(i) == /\ i \notin done
            /\ \A j \in DOMAIN Ops(hid) : (j \notin done /\ j # i) => Ops(hid)[j].ret > Ops(hid)[i].inv

BindTo(l, n) == \/ bind[l] = n /\ UNCHANGED bind
                \/ /\ bind[l] = 0
                   /\ \A m \in Labels : bind[m] # n
                   /\ n \notin deny[l]
                   /\ bind' = [bind EXCEPT ![l] = n]

Live == {n \in 1..s.issued : UriOfId(s, n) # None}

LenOf(c) == CASE c = "c0" -> "0" [] c = "c1" -> "2" [] c = "c2" -> "11" [] OTHER -> "?"

ListText(L) == IF L = {} THEN "" ELSE IF L = {"mem:/a"} THEN "mem:/a"
               ELSE IF L = {"mem:/b"} THEN "mem:/b" ELSE "mem:/a,mem:/b"

Take(o) ==
    CASE o.op = "write"  -> s' = WriteTo(s, o.u, o.c) /\ UNCHANGED <<bind, deny>>
      [] o.op = "remove" -> s' = RemoveFrom(s, o.u) /\ UNCHANGED <<bind, deny>>
      [] o.op = "source" -> /\ s' = s /\ UNCHANGED deny
                            /\ o.res = s.files[o.u]
                            /\ IF Present(s, o.u) THEN BindTo(o.id, s.idOf[o.u]) ELSE UNCHANGED bind
      [] o.op = "id"     -> /\ s' = s /\ UNCHANGED deny
                            /\ o.res = (IF Present(s, o.u) THEN "some" ELSE "none")
                            /\ IF Present(s, o.u) THEN BindTo(o.id, s.idOf[o.u]) ELSE UNCHANGED bind
      [] o.op = "exists" -> /\ UNCHANGED <<s, bind, deny>>
                            /\ o.res = (IF Present(s, o.u) THEN "true" ELSE "false")
      [] o.op = "len"    -> /\ UNCHANGED <<s, bind, deny>>
                            /\ o.res = (IF Present(s, o.u) THEN LenOf(s.files[o.u]) ELSE "none")
      [] o.op = "list"   -> UNCHANGED <<s, bind, deny>> /\ o.res = ListText(Listing(s))
      [] o.op = "uri"    -> /\ s' = s
                            /\ IF o.res = "none"
                               THEN /\ UNCHANGED bind
                                    /\ IF bind[o.id] = 0 THEN deny' = [deny EXCEPT ![o.id] = @ \cup Live]
                                       ELSE UriOfId(s, bind[o.id]) = None /\ UNCHANGED deny
                               ELSE /\ UNCHANGED deny /\ Present(s, o.res)
                                    /\ BindTo(o.id, s.idOf[o.res])

LinNext == \E i \in DOMAIN Ops(hid) :
              /\ CanGo(i)
              /\ Take(Ops(hid)[i])
              /\ done' = done \cup {i}
              /\ UNCHANGED hid

(* Every history must have a behaviour that places all its calls. *)
Mark == done = DOMAIN Ops(hid) => TLCSet(hid, TRUE)
AllLinearizable ==
    \A k \in 1..Len(H) : TLCGet(k) = TRUE \/ PrintT("@" \o ToJson([bad |-> k]))
ASSUME \A k \in 1..Len(H) : TLCSet(k, FALSE)
Accepted == AllLinearizable
=============================================================================
