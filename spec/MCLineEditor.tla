---------------------------- MODULE MCLineEditor ----------------------------
EXTENDS LineEditor, TLC, Json
CONSTANTS Steps, MaxText
VARIABLE hist
Init == EditorInit /\ hist = <<>>
Size == Len(Text)
Log(a) == hist' = Append(hist, a @@ [line |-> lines'[Len(lines')], col |-> col', cont |-> cont', n |-> Len(lines'), text |-> lines, complete |-> Complete, depth |-> Depth, stop |-> ~running', lang |-> lang])
Next == /\ Len(hist) < Steps /\ running
        /\ \/ \E c \in Chars : Size < MaxText /\ Insert(c) /\ Log([k |-> "char", c |-> c])
           \/ Left /\ Log([k |-> "left"])
           \/ Right /\ Log([k |-> "right"])
           \/ Backspace /\ Log([k |-> "back"])
           \/ Enter /\ Log([k |-> "enter"])
           \/ Cancel /\ Log([k |-> "cancel"])
           \/ lines # <<<<>>>> /\ Eof /\ Log([k |-> "eof"])
Emit == Len(hist) = Steps => PrintT("@" \o ToJson(hist))
\* what each key may change: an insertion followed by a backspace is nothing; only Enter opens a line
Edits == [][/\ (Len(lines') > Len(lines) => lines' = Append(lines, Blanks(Depth)) /\ ~Complete)
            /\ (hist'[Len(hist')].k = "char" => Len(Text') = Len(Text) + 1 /\ SubSeq(lines'[Len(lines')], 1, col) = SubSeq(Cur, 1, col))
            /\ (hist'[Len(hist')].k = "back" => Len(Text') = Len(Text) - (IF Len(lines) = 1 /\ col = 0 THEN 0 ELSE 1))]_<<vars, hist>>
DesignView == <<vars, Len(hist)>>
=============================================================================
