------------------------------ MODULE MCDiskVfs ------------------------------
EXTENDS DiskVfs, TLC, Json, SequencesExt
CONSTANTS Steps, Foreign
VARIABLES n, hist
vars == <<tree, ids, n, hist>>
C1 == {<<"x">>}
C2 == {<<>>, <<"x">>}
C4 == {<<>>, <<"x">>, <<"e","nl","x">>, <<"g","g","nl">>}
Init == tree = EmptyTree /\ ids = {} /\ n = 0 /\ hist = <<>>
See(t) == LET ps == SetToSeq({x \in Paths : t[x].kind # "none"}) IN [i \in 1..Len(ps) |-> [path |-> ps[i], kind |-> t[ps[i]].kind, text |-> t[ps[i]].text]]
Log(op, style, path, text) == /\ n < Steps /\ n' = n + 1
            /\ hist' = Append(hist, [op |-> op, style |-> style, path |-> path, text |-> text, tree |-> See(tree'), ids |-> SetToSeq(ids')])
DoWrite == \E u \in Uris, c \in Contents : Write(u, c) /\ Log("write", u.style, u.path, c)
DoRemove == \E u \in Uris : Drop(u) /\ Log("remove", u.style, u.path, <<>>)
DoRead == \E u \in Uris : Read(u) /\ Log("read", u.style, u.path, <<>>)
DoMakeDir == Foreign /\ \E p \in Paths : MakeDir(p) /\ Log("mkdir", "", p, <<>>)
DoPut == Foreign /\ \E p \in Paths, c \in Contents : Put(p, File(c)) /\ Log("put", "", p, c)
DoPutRaw == Foreign /\ \E p \in Paths : Put(p, Raw) /\ Log("raw", "", p, <<>>)
DoDelete == Foreign /\ \E p \in Paths : Delete(p) /\ Log("delete", "", p, <<>>)
Next == DoWrite \/ DoRemove \/ DoRead \/ DoMakeDir \/ DoPut \/ DoPutRaw \/ DoDelete
View == <<tree, ids, n>>
Emit == n = Steps => PrintT("@" \o ToJson(hist))
\* Design properties
IsTree == tree[<<>>] = Dir /\ \A p \in Paths : p # <<>> /\ tree[p].kind # "none" => tree[Up(p)].kind = "dir"
\* what was written through the view is there
Visible == hist # <<>> => LET h == hist[Len(hist)] IN
             (h.op = "write" /\ [style |-> h.style, path |-> h.path] \in ids /\ IsFile(h.path)) => tree[h.path] = File(h.text)
Gone == hist # <<>> => LET h == hist[Len(hist)] IN h.op \in {"remove", "delete"} => ~IsFile(h.path)
\* the view changes nothing but the file it is asked about
Local == [][LET h == hist'[Len(hist')] IN h.op \in {"write", "remove", "read"} => \A p \in Paths : ~Under(p, h.path) => tree'[p] = tree[p]]_vars
=============================================================================
