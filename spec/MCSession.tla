------------------------------ MODULE MCSession ------------------------------
EXTENDS Session, TLC, Json
CONSTANTS Sizes, Depth
VARIABLE hist
Init == SessionInit /\ hist = <<>>
Log(a) == hist' = Append(hist, a @@ [offer |-> last, shown |-> IF last' # 0 THEN <<last'>> ELSE <<0, best'>>, toks |-> toks', ver |-> ver'])
Next == /\ Len(hist) < Depth
        /\ \/ \E z \in Sizes : Good(TRUE) /\ Log([op |-> "good", size |-> z])
           \/ Good(FALSE) /\ Log([op |-> "good_no_tokens"])
           \/ \E z \in Sizes : Bad(TRUE) /\ Log([op |-> "bad", size |-> z])
           \/ Bad(FALSE) /\ Log([op |-> "bad_no_tokens"])
           \/ Abandon /\ Log([op |-> "abandon"])
           \/ Again /\ Log([op |-> "again"])
Emit == Len(hist) = Depth => PrintT("@" \o ToJson(hist))
DesignView == <<last, best, toks, ver, Len(hist)>>
=============================================================================
