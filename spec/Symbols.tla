------------------------------ MODULE Symbols ------------------------------
(***************************************************************************)
(* The workspace symbol index.  The only state is what each file defines;  *)
(* every query is a function of it.  Updating a file replaces exactly that *)
(* file's definitions, in one atomic step.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Files, Shapes      \* Shapes: the lists of <<container, name>> a file may define

Fqn(x) == IF x.c = "" THEN x.n ELSE x.c \o "::" \o x.n

Range(f) == {f[i] : i \in DOMAIN f}

(* tag: the update that introduced the definition, so that stale answers show. *)
Stamp(shape, tag) == [i \in DOMAIN shape |-> [c |-> shape[i][1], n |-> shape[i][2], tag |-> tag * 10 + i]]

InitDefs == [f \in Files |-> <<>>]
Update(d, f, shape, tag) == [d EXCEPT ![f] = Stamp(shape, tag)]

All(d) == UNION {{[f |-> f, x |-> d[f][i]] : i \in DOMAIN d[f]} : f \in Files}
Defined(d, q) == {e \in All(d) : Fqn(e.x) = q}

(* lookup may return any current definition of that name, and nothing iff there is none *)
LookupOk(d, q, r) == IF Defined(d, q) = {} THEN r = {} ELSE r # {} /\ r \subseteq Defined(d, q) /\ Cardinality(r) = 1
Matching(d, hits) == {e \in All(d) : Fqn(e.x) \in hits}
=============================================================================
