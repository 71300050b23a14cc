----------------------------- MODULE MCColumns ------------------------------
(* The selector as a machine: one field of the row at a time, a cursor over  *)
(* the listed indexes.  Rows follow each other after a reset.                *)
EXTENDS Columns, Json
CONSTANTS Alphabet, MaxLen, MaxIdx, MaxCols
VARIABLES mode, s, idx, at, ci, cells, st
vars == <<mode, s, idx, at, ci, cells, st>>
D == {44}
IdxLists == { SetToSortSeq(S, LAMBDA a, b : a < b) : S \in (SUBSET (0..MaxIdx)) \ {{}} }
Init == /\ mode \in {"sel", "parse"} /\ s \in SeqsUpTo(Alphabet, MaxLen)
        /\ idx \in { x \in IdxLists : Len(x) <= MaxCols }
        /\ at = 1 /\ ci = 1 /\ cells = [j \in 1..Len(idx) |-> Kept] /\ st = "run"
ts == Toks(s, D, IF mode = "sel" THEN 0 ELSE 1)
Field == /\ st = "run" /\ at <= Len(ts)
         /\ at' = at + 1
         /\ IF ci <= Len(idx) /\ at - 1 = idx[ci]
            THEN LET v == Conv(TypeOf(ci), ts[at]) IN
                 /\ ci' = ci + 1
                 /\ cells' = IF v[1] = 1 THEN [cells EXCEPT ![ci] = v[2]] ELSE cells
                 /\ st' = IF v[1] = 0 /\ mode = "parse" THEN "fail" ELSE st
            ELSE UNCHANGED <<ci, cells, st>>
         /\ UNCHANGED <<mode, s, idx>>
RowEnd == /\ st = "run" /\ at > Len(ts) /\ st' = (IF ci > Len(idx) THEN "ok" ELSE "fail") /\ UNCHANGED <<mode, s, idx, at, ci, cells>>
Emit(o, in) == PrintT(ToJson([o |-> o, i |-> in, r |-> ColumnsExpected(o, in)]))
Done == /\ st \in {"ok", "fail"} /\ st' = st \o "." /\ UNCHANGED <<mode, s, idx, at, ci, cells>>
        /\ IF mode = "sel" THEN /\ Emit("cselsplit", <<s, <<44>>, 0, idx>>)
                                /\ Emit("csel", <<idx, <<ts, ts>>>>)
                                /\ Emit("cselseq", <<idx, <<ts>>, Len(idx)>>)
           ELSE Emit("pcols", <<s, <<44>>, idx>>) /\ Emit("pcolseq", <<s, <<44>>, idx, Len(idx)>>)
Next == Field \/ RowEnd \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ended == st \in {"ok.", "fail."}
\* the selector machine leaves exactly what the row function says
SelRight == (Ended /\ mode = "sel") => <<cells>> = ColumnsExpected("cselsplit", <<s, <<44>>, 0, idx>>)
\* parse reports success exactly when every listed column exists and converts, and then all cells are set
ParseRight == (Ended /\ mode = "parse") =>
   LET e == ColumnsExpected("pcols", <<s, <<44>>, idx>>)[1] IN
   /\ (st = "ok.") <=> (e[1] = 1)
   /\ e[1] = 1 => cells = e[2]
   /\ (e[1] = 1) <=> \A j \in 1..Len(idx) : idx[j] < Len(ts) /\ Conv(TypeOf(j), ts[idx[j] + 1])[1] = 1
\* a column that is not listed has no influence
OnlyListed == \A j \in 1..Len(idx) : cells[j] # Kept => (idx[j] < Len(ts) /\ cells[j] = Conv(TypeOf(j), ts[idx[j] + 1])[2])
Terminates == <>Ended
=============================================================================
