----------------------------- MODULE Workspace -----------------------------
(***************************************************************************)
(* Workspace folders and import resolution.  A path is the sequence of its *)
(* components below the scratch directory.  State: the folders of the      *)
(* workspace, the root directories in search order, and the files on disk. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Within(r, p) == IsPrefix(r, p)               \* whole components, so /w does not contain /wx
Parent(p) == SubSeq(p, 1, Len(p) - 1)

RECURSIVE Norm(_, _)
Norm(dir, segs) ==
  IF segs = <<>> THEN dir
  ELSE IF Head(segs) = "." THEN Norm(dir, Tail(segs))
  ELSE IF Head(segs) = ".." THEN Norm(IF dir = <<>> THEN <<"outside">> ELSE Parent(dir), Tail(segs))
  ELSE Norm(Append(dir, Head(segs)), Tail(segs))

(* An import is [abs |-> BOOLEAN, segs |-> Seq]; a base is <<>> when the importing URI names no file on disk. *)
Join(dir, imp) == IF imp.abs THEN Norm(<<>>, imp.segs) ELSE Norm(dir, imp.segs)

Candidates(st, base, imp) ==
  (IF base = <<>> THEN <<>> ELSE <<Join(Parent(base), imp)>>)
    \o [i \in DOMAIN st.roots |-> Join(st.roots[i], imp)]

Resolve(st, base, imp) ==
  LET c == Candidates(st, base, imp)
      hits == {i \in DOMAIN c : c[i] \in st.files}
  IN IF hits = {} THEN <<>> ELSE c[CHOOSE i \in hits : \A j \in hits : i <= j]

InnermostRoot(st, p) ==
  LET r == {f \in ToSet(st.roots) : Within(f, p)} IN
  IF r = {} THEN <<"none">> ELSE CHOOSE x \in r : \A y \in r : Len(y) <= Len(x)

Start(root, folders) ==
  [roots |-> root \o folders, files |-> {}]
AddFolder(st, f) == IF f \in ToSet(st.roots) THEN st ELSE [st EXCEPT !.roots = Append(@, f)]
RemoveFolder(st, f) == [st EXCEPT !.roots = SelectSeq(@, LAMBDA x : x # f)]
Create(st, p) == [st EXCEPT !.files = @ \cup {p}]
Delete(st, p) == [st EXCEPT !.files = @ \ {p}]
=============================================================================
