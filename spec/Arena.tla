------------------------------- MODULE Arena -------------------------------
(***************************************************************************)
(* Tree arenas over pooled chunks, sizes in units of an eighth of a chunk. *)
(*   arena[a]  chunks of arena a, the last one in use: [cap, used, allocs] *)
(*             with allocs the sizes placed one after the other            *)
(*   live      arenas that exist       pool   chunks kept by the thread    *)
(*   heap      chunks held from the system                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Ids, Cap, PoolLimit
VARIABLES arena, live, pool, heap
avars == <<arena, live, pool, heap>>
ArenaInit == arena = [a \in Ids |-> <<>>] /\ live = {} /\ pool = 0 /\ heap = 0

New(a) == a \notin live /\ live' = live \cup {a} /\ arena' = [arena EXCEPT ![a] = <<>>] /\ UNCHANGED <<pool, heap>>
Room(a, n) == arena[a] # <<>> /\ LET c == arena[a][Len(arena[a])] IN c.used + n <= c.cap
Place(a, n) == [arena EXCEPT ![a][Len(arena[a])] = [cap |-> @.cap, used |-> @.used + n, allocs |-> Append(@.allocs, n)]]
Fresh(cap, n) == [cap |-> cap, used |-> n, allocs |-> <<n>>]
Alloc(a, n) ==
  /\ a \in live /\ UNCHANGED live
  /\ IF Room(a, n) THEN arena' = Place(a, n) /\ UNCHANGED <<pool, heap>>
     ELSE IF n < Cap
          THEN /\ arena' = [arena EXCEPT ![a] = Append(@, Fresh(Cap, n))]
               /\ IF pool > 0 THEN pool' = pool - 1 /\ UNCHANGED heap ELSE heap' = heap + 1 /\ UNCHANGED pool
          ELSE arena' = [arena EXCEPT ![a] = Append(@, Fresh(n + 1, n))] /\ heap' = heap + 1 /\ UNCHANGED pool
Drop(a) ==
  /\ a \in live /\ live' = live \ {a}
  /\ LET standard == Cardinality({k \in DOMAIN arena[a] : arena[a][k].cap = Cap})
         room == PoolLimit - pool
         kept == IF standard < room THEN standard ELSE room
     IN pool' = pool + kept /\ heap' = heap - (Len(arena[a]) - kept)
  /\ arena' = [arena EXCEPT ![a] = <<>>]

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Disjoint == \A a \in live : \A k \in DOMAIN arena[a] : LET c == arena[a][k] IN c.used = Sum(c.allocs) /\ c.used <= c.cap
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET a == CHOOSE x \in S : TRUE IN Len(arena[a]) + Total(S \ {a})
NothingLost == heap = pool + Total(live)
Bounded == pool <= PoolLimit
=============================================================================
