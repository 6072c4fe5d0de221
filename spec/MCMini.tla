------------------------------- MODULE MCMini -------------------------------
(* Edit histories over the small language. *)
EXTENDS Mini, TLC, Json
CONSTANTS Letters, Repls, Starts0, MaxStart, MaxCut, Steps, MaxBatch, MaxLen, WithTree, Mode
VARIABLES text, batch, hist, n, ok

NoTexts == {}
LexRepls == {<<>>, <<".">>, <<"1">>, <<"q">>, <<"a">>, <<"n">>}
LexRepls2 == LexRepls \cup {<<"=">>, <<" ">>, <<"h">>, <<"e">>, <<"q", "a">>, <<".", "1">>, <<"b">>, <<"1", "1", "1">>}
TreeRepls == {<<>>, <<"a">>, <<"b">>, <<"x">>, <<";">>, <<"{">>, <<"}">>, <<" ">>, <<",">>}
TreeRepls2 == TreeRepls \cup {<<"=">>, <<"h">>, <<"n">>, <<"q">>, <<"a", ";">>, <<"{", "a", "}">>, <<"x", " ", "a">>, <<"a", "a">>, <<"1", ",">>, <<"e">>}
W(a, b) == a \o b
Seeds == { <<"a", "a", ";", "a", "a", ";", "a", "b", ";">>,
           <<"{", "a", ";", "a", ";", "}", "{", "a", ";", "}">>,
           <<"b", " ", "a", ";", "x", " ", "a", ";", "a", ";">>,
           <<"b", "{", "}", "{", "}", "x", "{", "}">>,
           <<"a", ",", "1", ",", "a", ";", "a", "a", "=", "1", ";">>,
           <<"{", "b", " ", "a", "n", "a", ";", "}", "h", "a", "n", "a">>,
           <<"a", ";", "h", "a", ";", "n", "a", ";", "q", ";", "q", ";">> }
Short == UNION {[1..k -> Letters] : k \in 0..MaxStart}
Exp(t) == IF WithTree THEN [text |-> t, toks |-> Lex(t), tree |-> Tree(t)] ELSE [text |-> t, toks |-> Lex(t)]
Init == /\ text \in Short \cup Starts0
        /\ batch = <<>> /\ n = 0 /\ ok = TRUE
        /\ hist = <<Exp(text)>>
Edits == {d \in [s : 0..Len(text), e : 0..Len(text), r : Repls] : d.s <= d.e /\ d.e - d.s <= MaxCut /\ (d.s < d.e \/ d.r # <<>>)}
Pick == /\ Len(batch) < MaxBatch /\ n < Steps
        /\ \E d \in Edits : (\A i \in DOMAIN batch : Disjoint(d, batch[i])) /\ batch' = Append(batch, d)
        /\ UNCHANGED <<text, hist, n, ok>>
MinStart(b) == LET m == {b[i].s : i \in DOMAIN b} IN CHOOSE x \in m : \A y \in m : x <= y
Commit == /\ n < Steps /\ (batch # <<>> \/ Mode = "sim")
          /\ LET t == Splice(text, batch)
                 from == IF batch = <<>> THEN Len(t) ELSE MinStart(batch) IN
             /\ Len(t) <= MaxLen
             /\ text' = t
             /\ hist' = Append(hist, [edits |-> batch, from |-> from] @@ Exp(t))
             /\ ok' = (Mode = "design" => Resume(Lex(text), from, t, 2) = Lex(t))
          /\ batch' = <<>> /\ n' = n + 1
Next == Pick \/ Commit
Emit == (Mode \in {"emit", "sim"} /\ n = Steps) => PrintT("@" \o ToJson(hist))

(* Design properties: resuming with two tokens of backtracking is lexing; tokens tile the text; the
   tree holds exactly the tokens. *)
Resumable == ok
Tiles == LET z == Lex(text) IN
  /\ z[1].s = 0 /\ z[Len(z)] = [k |-> EOF, s |-> Len(text), e |-> Len(text)]
  /\ \A i \in 1..(Len(z) - 1) : z[i].e = z[i + 1].s /\ z[i].s < z[i].e
Holds == LET z == Lex(text) IN Leaves(Tree(text)) = [i \in 1..(Len(z) - 1) |-> Leaf(z[i])]
DesignView == <<text, n, ok, batch>>
=============================================================================
