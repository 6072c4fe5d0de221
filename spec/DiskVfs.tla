------------------------------- MODULE DiskVfs -------------------------------
(* A directory tree, seen and changed through URIs (relative to the root, or absolute) and changed behind the view's back.
   The view keeps nothing but the identifiers of the URIs it has handed out. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Names, Depth, Contents, Styles
VARIABLES tree, ids
Paths == UNION {[1..d -> Names] : d \in 0..Depth}
\* what is at a path: nothing, a directory, a file (with its contents), a file that is not text
Nothing == [kind |-> "none", text |-> <<>>]
Dir == [kind |-> "dir", text |-> <<>>]
Raw == [kind |-> "raw", text |-> <<>>]
File(c) == [kind |-> "file", text |-> c]
Uris == [style : Styles, path : Paths]
IsFile(p) == tree[p].kind \in {"file", "raw"}
Up(p) == SubSeq(p, 1, Len(p) - 1)
Under(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Above(p) == {q \in Paths : Under(q, p) /\ q # p}
Children(p) == {q \in Paths : Len(q) = Len(p) + 1 /\ Under(p, q) /\ tree[q].kind # "none"}
EmptyTree == [p \in Paths |-> IF p = <<>> THEN Dir ELSE Nothing]
\* a file can be written where no directory is, if every path above it is, or can become, a directory
CanWrite(p) == p # <<>> /\ tree[p].kind # "dir" /\ \A q \in Above(p) : ~IsFile(q)
With(p, x) == [q \in Paths |-> IF q = p THEN x ELSE IF q \in Above(p) /\ tree[q].kind = "none" THEN Dir ELSE tree[q]]
Write(u, c) == /\ tree' = IF CanWrite(u.path) THEN With(u.path, File(c)) ELSE tree
               /\ ids' = IF CanWrite(u.path) THEN ids \cup {u} ELSE ids
Drop(u) == /\ tree' = IF IsFile(u.path) THEN [tree EXCEPT ![u.path] = Nothing] ELSE tree
           /\ ids' = IF IsFile(u.path) THEN ids \ {u} ELSE ids
\* reading a text identifies it
Read(u) == /\ UNCHANGED tree
           /\ ids' = IF tree[u.path].kind = "file" THEN ids \cup {u} ELSE ids
\* changes by others
MakeDir(p) == CanWrite(p) /\ tree[p].kind = "none" /\ tree' = With(p, Dir) /\ UNCHANGED ids
Put(p, x) == CanWrite(p) /\ tree[p] # x /\ tree' = With(p, x) /\ UNCHANGED ids
Delete(p) == p # <<>> /\ tree[p].kind # "none" /\ tree' = [q \in Paths |-> IF Under(p, q) THEN Nothing ELSE tree[q]] /\ UNCHANGED ids
=============================================================================
