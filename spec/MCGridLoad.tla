----------------------------- MODULE MCGridLoad -----------------------------
(* Loading as a one pass machine over the text: a cell, a row and the rows   *)
(* so far; quotes suspend the column delimiters until the row ends.          *)
EXTENDS Grid, Json
CONSTANTS Alphabet, MaxLen, Opts, Quotes
CD == {44}
RD == {10}
VARIABLES s, opt, dq, p, cell, row, rows, inq, sep, fin
vars == <<s, opt, dq, p, cell, row, rows, inq, sep, fin>>
Init == /\ s \in SeqsUpTo(Alphabet, MaxLen) /\ opt \in Opts /\ dq \in Quotes
        /\ p = 1 /\ cell = <<>> /\ row = <<>> /\ rows = <<>> /\ inq = FALSE /\ sep = FALSE /\ fin = FALSE
Keepers == UNCHANGED <<s, opt, dq>>
InRow == cell # <<>> \/ row # <<>>
EndRow == /\ rows' = (IF InRow THEN Append(rows, Append(row, cell)) ELSE rows)
          /\ cell' = <<>> /\ row' = <<>> /\ inq' = FALSE /\ sep' = FALSE
Newline == ~fin /\ p <= Len(s) /\ s[p] \in RD /\ EndRow /\ p' = p + 1 /\ fin' = fin /\ Keepers
\* the last row ends with the text; a cell is still open after a final delimiter
Finish == ~fin /\ p > Len(s) /\ EndRow /\ fin' = TRUE /\ p' = p /\ Keepers
IsSep(c) == c \in CD /\ ~inq
Column == /\ ~fin /\ p <= Len(s) /\ s[p] \notin RD /\ IsSep(s[p])
          /\ IF opt = 1 /\ sep THEN UNCHANGED <<cell, row>> ELSE cell' = <<>> /\ row' = Append(row, cell)
          /\ sep' = TRUE /\ p' = p + 1 /\ UNCHANGED <<rows, inq, fin>> /\ Keepers
Plain == /\ ~fin /\ p <= Len(s) /\ s[p] \notin RD /\ ~IsSep(s[p])
         /\ cell' = Append(cell, s[p]) /\ inq' = (IF dq = 1 /\ s[p] = 34 THEN ~inq ELSE inq)
         /\ sep' = FALSE /\ p' = p + 1 /\ UNCHANGED <<row, rows, fin>> /\ Keepers
Emit(trim) == LET i == <<s, <<10>>, <<44>>, opt, dq, trim>> IN PrintT(ToJson([o |-> "grid_load", i |-> i, r |-> <<See(Load(s, Conf(i)))>>]))
Report == /\ fin /\ p # 0 /\ p' = 0 /\ UNCHANGED <<s, opt, dq, cell, row, rows, inq, sep, fin>>
          /\ Emit(0) /\ (dq = 1 => Emit(1))
Next == Newline \/ Finish \/ Column \/ Plain \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Loaded == fin => rows = Load(s, [rd |-> <<10>>, cd |-> <<44>>, opt |-> opt, dq |-> dq, trim |-> 0])
NoEmptyRow == \A k \in 1..Len(rows) : rows[k] # <<>>
\* nothing of the text is lost except delimiters
Content == (fin /\ dq = 0) => Cat([k \in 1..Len(rows) |-> Cat(rows[k])]) = Keep(s, LAMBDA c : c \notin CD \cup RD)
Terminates == <>(fin /\ p = 0)
=============================================================================
