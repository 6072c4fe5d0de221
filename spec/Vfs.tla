-------------------------------- MODULE Vfs --------------------------------
(***************************************************************************)
(* The in-memory virtual file system: a store of documents addressed both *)
(* by URI and by a numeric id.  Each public operation is one atomic step. *)
(*   - an id is handed out when a URI is first written, stays with that    *)
(*     URI while the document exists, and is never handed out again;       *)
(*   - removing a document forgets its URI, its text and its id together.  *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS Uris, Contents

None == "none"

InitVfs == [files |-> [u \in Uris |-> None],     \* text of a document
            idOf  |-> [u \in Uris |-> 0],        \* id of a document (0: none)
            issued |-> 0]                        \* ids 1..issued were handed out

Present(s, u) == s.files[u] # None

WriteTo(s, u, c) ==
    LET fresh == ~Present(s, u)
        n     == IF fresh THEN s.issued + 1 ELSE s.issued
    IN [files  |-> [s.files EXCEPT ![u] = c],
        idOf   |-> IF fresh THEN [s.idOf EXCEPT ![u] = n] ELSE s.idOf,
        issued |-> n]

RemoveFrom(s, u) ==
    IF Present(s, u)
    THEN [s EXCEPT !.files[u] = None, !.idOf[u] = 0]
    ELSE s

UriOfId(s, i) == IF \E u \in Uris : s.idOf[u] = i THEN CHOOSE u \in Uris : s.idOf[u] = i ELSE None

Listing(s) == {u \in Uris : Present(s, u)}

(* What every query must answer in state s. *)
Observe(s) ==
    [files |-> [u \in Uris |-> [exists |-> Present(s, u), text |-> s.files[u], id |-> s.idOf[u]]],
     ids   |-> [i \in 1..s.issued |-> UriOfId(s, i)]]

-----------------------------------------------------------------------------
VARIABLE s
Init == s = InitVfs
Next == \E u \in Uris : (\E c \in Contents : s' = WriteTo(s, u, c)) \/ s' = RemoveFrom(s, u)

(* Properties of the design, model-checked for all reachable states. *)
TypeOK == /\ s.files \in [Uris -> Contents \cup {None}]
          /\ s.idOf \in [Uris -> 0..s.issued]
Bijection == \A u, v \in Uris : (Present(s, u) /\ Present(s, v) /\ s.idOf[u] = s.idOf[v]) => u = v
IdIffPresent == \A u \in Uris : Present(s, u) <=> s.idOf[u] # 0
RoundTrip == \A u \in Uris : Present(s, u) => UriOfId(s, s.idOf[u]) = u
(* An id that was retired never comes back, and a live one never moves. *)
NoReuse == [][/\ s'.issued >= s.issued
              /\ \A i \in 1..s.issued : UriOfId(s', i) \in {UriOfId(s, i), None}]_s
=============================================================================
