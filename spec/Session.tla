------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A parse session.  Every parse has a version number; version 0 is none.  *)
(*   last   the tree of the last parse, 0 when it produced none            *)
(*   best   the most recent tree produced (0: none yet)                    *)
(*   toks   the version whose tokens the session holds                     *)
(* A parse that starts is offered exactly `last`.  After a parse that      *)
(* produced no tree the session shows either nothing or the tree `best`.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences
VARIABLES last, best, toks, ver
vars == <<last, best, toks, ver>>
SessionInit == last = 0 /\ best = 0 /\ toks = 0 /\ ver = 0
Shown == IF last # 0 THEN {last} ELSE {0, best}

\* A parse with a tree; `lexed` says whether the lexer produced tokens.
Good(lexed) == /\ ver' = ver + 1 /\ last' = ver + 1 /\ best' = ver + 1
               /\ toks' = IF lexed THEN ver + 1 ELSE 0
\* A parse without a tree.
Bad(lexed) == /\ ver' = ver + 1 /\ last' = 0 /\ best' = best
              /\ toks' = IF lexed THEN ver + 1 ELSE 0
\* A generation that is prepared and abandoned: a parse that never got to its tokens.
Abandon == Bad(FALSE)
\* Committing the last tree again changes nothing.
Again == last # 0 /\ UNCHANGED vars

LastIsBest == last \in {0, best}
BestIsOld == best <= ver /\ toks <= ver
=============================================================================
