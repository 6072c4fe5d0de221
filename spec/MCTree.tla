------------------------------- MODULE MCTree -------------------------------
EXTENDS Tree, TLC, Json
CONSTANTS MaxElems, MinElems, Lens, Mode
VARIABLES t

Init == t = <<Root>>
Next == /\ Len(t) < MaxElems
        /\ \E d \in 1..(t[Len(t)].depth + 1) : MayFollow(t, d) /\
             \/ t' = Append(t, [leaf |-> FALSE, len |-> 0, depth |-> d])
             \/ \E n \in Lens : t' = Append(t, [leaf |-> TRUE, len |-> n, depth |-> d])

Observe == [elems |-> [i \in 1..Len(t) |->
              [leaf |-> t[i].leaf, len |-> Width(t, i), start |-> Start(t, i), parent |-> Parent(t, i), last |-> Last(t, i),
               ch |-> Children(t, i), move |-> <<Into(t, i), Over(t, i), Out(t, i), Step(t, i), Skip(t, i)>>,
               childat |-> IF t[i].leaf THEN <<>> ELSE [o \in 1..(End(t, 1) + 2) |-> ChildAt(t, i, o - 1)],
               leafat |-> IF t[i].leaf THEN <<>> ELSE [o \in 1..(End(t, 1) + 2) |-> LeafAt(t, i, o - 1)]]]]
Emit == (Mode = "emit" /\ Len(t) >= MinElems) => PrintT("@" \o ToJson(Observe))
EmitLast == (Mode = "sim" /\ Len(t) = MaxElems) => PrintT("@" \o ToJson(Observe))

(* Design: the functions above fit together. *)
SpansAreConcatenations == \A i \in 1..Len(t) : ~t[i].leaf =>
    LET c == Children(t, i) IN
      /\ \A k \in 1..Len(c) : Start(t, c[k]) = (IF k = 1 THEN Start(t, i) ELSE End(t, c[k - 1]))
      /\ End(t, i) = (IF c = <<>> THEN Start(t, i) ELSE End(t, c[Len(c)]))
SiblingsAreChildren == \A i \in 2..Len(t) : LET c == Children(t, Parent(t, i)) IN
      /\ \E k \in 1..Len(c) : c[k] = i /\ NextSibling(t, i) = (IF k = Len(c) THEN 0 ELSE c[k + 1])
OneLeafPerByte == \A o \in 0..(End(t, 1) - 1) : LeafAt(t, 1, o) # 0
                    /\ Cardinality({k \in 1..Len(t) : t[k].leaf /\ Start(t, k) <= o /\ o < End(t, k)}) = 1
StepReachesAll == \A i \in 2..Len(t) : Step(t, i - 1) = i /\ (FirstChild(t, i) # 0 => Parent(t, FirstChild(t, i)) = i)
SkipLeaves == \A i \in 1..Len(t) : LET s == Skip(t, i) IN s # 0 => t[s].depth <= t[i].depth /\ Start(t, s) = End(t, i)
=============================================================================
