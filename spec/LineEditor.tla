----------------------------- MODULE LineEditor -----------------------------
(* The interactive shell's line editor (oak-repl): the text being entered, as lines of characters, and the cursor in its
   last line. Keys edit it; Enter asks the language whether the text is complete, and then either executes it and starts
   afresh, or opens a new line with the indentation the language asks for. *)
EXTENDS Integers, Sequences
CONSTANTS Chars, Open, Close, Langs
VARIABLES lines, col, cont, running, lang
vars == <<lines, col, cont, running, lang>>
Cur == lines[Len(lines)]
RECURSIVE Balance(_, _)
Balance(t, k) == IF k = 0 THEN 0 ELSE Balance(t, k - 1) + (IF t[k] = Open THEN 1 ELSE IF t[k] = Close THEN -1 ELSE 0)
RECURSIVE Total(_, _)
Total(ls, k) == IF k = 0 THEN 0 ELSE Total(ls, k - 1) + Balance(ls[k], Len(ls[k]))
\* The model languages. "brackets": complete when no bracket is left open, one blank of indentation for each open bracket;
\* "marked": complete when the last line ends with the mark, no indentation.
Depth == IF lang = "brackets" THEN Total(lines, Len(lines)) ELSE 0
Complete == IF lang = "brackets" THEN Depth <= 0 ELSE Cur # <<>> /\ Cur[Len(Cur)] = Open
Blanks(n) == [i \in 1..n |-> " "]
SetCur(t) == lines' = [lines EXCEPT ![Len(lines)] = t]

EditorInit == lines = <<<<>>>> /\ col = 0 /\ cont = FALSE /\ running = TRUE /\ lang \in Langs
Insert(c) == /\ SetCur(SubSeq(Cur, 1, col) \o <<c>> \o SubSeq(Cur, col + 1, Len(Cur)))
             /\ col' = col + 1 /\ UNCHANGED <<cont, running, lang>>
Left == col' = (IF col > 0 THEN col - 1 ELSE 0) /\ UNCHANGED <<lines, cont, running, lang>>
Right == col' = (IF col < Len(Cur) THEN col + 1 ELSE col) /\ UNCHANGED <<lines, cont, running, lang>>
Backspace ==
  /\ IF col > 0 THEN SetCur(SubSeq(Cur, 1, col - 1) \o SubSeq(Cur, col + 1, Len(Cur))) /\ col' = col - 1
     ELSE IF Len(lines) > 1
          THEN /\ lines' = SubSeq(lines, 1, Len(lines) - 2) \o <<lines[Len(lines) - 1] \o Cur>>
               /\ col' = Len(lines[Len(lines) - 1])
          ELSE UNCHANGED <<lines, col>>
  /\ UNCHANGED <<cont, running, lang>>
Fresh == lines' = <<<<>>>> /\ col' = 0 /\ cont' = FALSE
Enter == /\ IF Complete THEN Fresh
            ELSE lines' = Append(lines, Blanks(Depth)) /\ col' = Depth /\ cont' = TRUE
         /\ UNCHANGED <<running, lang>>
Cancel == Fresh /\ UNCHANGED <<running, lang>>
Eof == running' = (lines # <<<<>>>>) /\ UNCHANGED <<lines, col, cont, lang>>

\* Design properties
CursorValid == col \in 0..Len(Cur)
RECURSIVE Flat(_, _)
Flat(ls, k) == IF k = 0 THEN <<>> ELSE (IF k = 1 THEN <<>> ELSE Flat(ls, k - 1) \o <<"/">>) \o ls[k]
Text == Flat(lines, Len(lines))
LeftRight == [][(col < Len(Cur) => TRUE)]_vars
Lasting == [][running' => lines' # <<>>]_vars
=============================================================================
