---------------------------- MODULE Diagnostics ----------------------------
(* An error travels from where it is raised to the screen: it is created with a place in a source (by a parser state, a
   source, or directly), may have its source replaced, be copied, and be collected with others; rendering it shows the
   line and column of its place. *)
EXTENDS Text
CONSTANTS Located, SourceOnly, Placeless
VARIABLES text, err
Kinds == Located \cup SourceOnly \cup Placeless
\* at: character position (Len(text)+1 stands for a place beyond the end), src: 0 when unknown
Create(k, at, src) == err' = [kind |-> k, at |-> IF k \in Located THEN at ELSE -1, src |-> IF k \in Placeless THEN 0 ELSE src] /\ UNCHANGED text
Attach(src) == err' = [err EXCEPT !.src = IF err.kind \in Placeless THEN 0 ELSE src] /\ UNCHANGED text
Copy == UNCHANGED <<text, err>>

Clamp(i) == IF i > Len(text) THEN Len(text) ELSE i
\* what a reader sees of a place: line, column in characters and in UTF-16 units
Place(i) == LET p == Clamp(i) IN [pos |-> p, line |-> LineOf(text, p), col |-> p - LineStart(text, LineOf(text, p)), col16 |-> Col16(text, p)]
\* the line as shown: without its line terminator ("n", or "r" followed by "n")
Shown(k) == LET s == LineStart(text, k)
                e == LineEnd(text, k)
                e1 == IF e > s /\ text[e] = "n" THEN e - 1 ELSE e
                e2 == IF e1 < e /\ e1 > s /\ text[e1] = "r" THEN e1 - 1 ELSE e1
            IN [s |-> s, e |-> e2]
Covered(i, j) == [from |-> Place(i), to |-> Place(j), lines |-> [k \in 1..(Place(j).line - Place(i).line + 1) |-> Shown(Place(i).line + k - 1)]]
\* the label of an error covers the character at its place
Label == IF err.at < 0 THEN <<>> ELSE <<Covered(err.at, IF err.at > Len(text) THEN err.at ELSE err.at + 1)>>
=============================================================================
