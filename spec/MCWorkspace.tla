---------------------------- MODULE MCWorkspace ----------------------------
EXTENDS Workspace, TLC, Json
CONSTANTS Depth, Mode
VARIABLES st, hist

W == <<"w">>
In == <<"w", "in">>
Wx == <<"wx">>
Sp == <<"s p~">>
Folders == {W, In, Wx, Sp}
FilesD == {W \o <<"m.py">>, In \o <<"m.py">>, Wx \o <<"m.py">>, Sp \o <<"m.py">>, Sp \o <<"in", "m.py">>, In \o <<"in", "m.py">>}
Bases == {<<>>, <<"top.py">>, W \o <<"main.py">>, In \o <<"a.py">>}
Rel(s) == [abs |-> FALSE, segs |-> s]
Imports == {Rel(<<"m.py">>), Rel(<<"in", "m.py">>), Rel(<<"..", "wx", "m.py">>), Rel(<<".", "m.py">>),
            Rel(<<"..", "m.py">>), Rel(<<"nothere.py">>), [abs |-> TRUE, segs |-> <<"wx", "m.py">>]}
Probes == {W, In \o <<"a.py">>, W \o <<"main.py">>, Wx \o <<"y">>, Sp \o <<"in", "q">>, <<"other">>, <<"w", "inn">>}

Observe(x) ==
  [resolve |-> {[base |-> b, imp |-> i, r |-> Resolve(x, b, i)] : b \in Bases, i \in Imports},
   root |-> {[p |-> p, r |-> InnermostRoot(x, p)] : p \in Probes},
   folders |-> ToSet(x.roots)]

Starts == {<<<<>>, <<>>>>, <<<<W>>, <<W, Wx>>>>, <<<<>>, <<Sp, In, W>>>>, <<<<Wx>>, <<>>>>}
Init == \E s \in Starts :
          LET t == Start(s[1], s[2]) IN
          st = t /\ hist = <<[op |-> "init", root |-> s[1], folders |-> s[2], exp |-> Observe(t)]>>
Do(rec, t) == /\ st' = t
              /\ hist' = Append(hist, rec @@ [exp |-> Observe(t)])
Next == /\ Len(hist) <= Depth
        /\ \/ \E f \in Folders : Do([op |-> "add", p |-> f], AddFolder(st, f))
           \/ \E f \in Folders : Do([op |-> "remove", p |-> f], RemoveFolder(st, f))
           \/ \E p \in FilesD \ st.files : Do([op |-> "create", p |-> p], Create(st, p))
           \/ \E p \in st.files : Do([op |-> "delete", p |-> p], Delete(st, p))
Emit == (Mode = "emit" /\ Len(hist) = Depth + 1) => PrintT("@" \o ToJson(hist))

(* Design properties. *)
ResolvesToExisting == \A b \in Bases, i \in Imports : LET r == Resolve(st, b, i) IN r = <<>> \/ r \in st.files
SiblingFirst == \A b \in Bases \ {<<>>}, i \in Imports :
                  Join(Parent(b), i) \in st.files => Resolve(st, b, i) = Join(Parent(b), i)
RootUseful == \A p \in Probes : LET r == InnermostRoot(st, p) IN
                 r # <<"none">> => \A f \in ToSet(st.roots) : Within(f, p) => Within(f, r)
FoldersOnly == [][st'.files # st.files => st'.roots = st.roots]_<<st, hist>>
Hidden == <<st, Len(hist)>>
=============================================================================
