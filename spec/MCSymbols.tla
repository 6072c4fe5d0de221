---------------------------- MODULE MCSymbols ----------------------------
EXTENDS Symbols, TLC, Json, Integers
CONSTANTS Depth, Mode
VARIABLES d, hist

Names == {"a", "b", "C::m", "D::m", "m"}
Queries == [all |-> [q |-> "", hits |-> Names], m |-> [q |-> "m", hits |-> {"C::m", "D::m", "m"}],
            sep |-> [q |-> "C::", hits |-> {"C::m"}], b |-> [q |-> "b", hits |-> {"b"}],
            z |-> [q |-> "zz", hits |-> {}]]

ShapeList == <<  << >>,
                 << <<"", "a">> >>,
                 << <<"", "a">>, <<"", "b">> >>,
                 << <<"C", "m">> >>,
                 << <<"", "C::m">>, <<"C", "m">>, <<"", "a">>, <<"", "a">> >>,
                 << <<"D", "m">>, <<"", "m">> >>,
                 << <<"", "b">>, <<"C", "m">> >> >>
ShapesDef == Range(ShapeList)
ShapesSmall == {ShapeList[1], ShapeList[2], ShapeList[4], ShapeList[5], ShapeList[6]}

Observe(x) == [files |-> x, lookups |-> [q \in Names |-> Defined(x, q)],
               queries |-> [k \in DOMAIN Queries |-> [q |-> Queries[k].q, r |-> Matching(x, Queries[k].hits)]]]

Init == d = InitDefs /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E f \in Files, sh \in Shapes :
             LET t == Update(d, f, sh, Len(hist) + 1) IN
             /\ d' = t
             /\ hist' = Append(hist, [f |-> f, syms |-> t[f], exp |-> Observe(t)])
Emit == (Mode = "emit" /\ Len(hist) = Depth) => PrintT("@" \o ToJson(hist))

(* Design properties. *)
Independence == [][\E f \in Files : \A g \in Files \ {f} : d'[g] = d[g]]_<<d, hist>>
NothingLost == \A f \in Files : \A i \in DOMAIN d[f] : Defined(d, Fqn(d[f][i])) # {}
NothingStale == \A e \in All(d) : e.x.tag \div 10 <= Len(hist)
=============================================================================
