------------------------------ MODULE Columns -------------------------------
(* Selecting listed columns of a row.                                        *)
EXTENDS Parse
\* parse_columns: all listed columns must exist and convert, in order
PCols(ts, idx) ==
  LET n == Len(idx) want == [j \in 1..n |-> ts[idx[j] + 1]] IN
  IF Len(ts) < idx[n] + 1 THEN <<0, [j \in 1..n |-> Kept]>> ELSE Cells(want, n)
Unset == <<45, 55, 55, 55>>        \* -777, what the sequences are filled with
PColSeq(ts, idx, size) ==
  LET n == Len(idx)
      b == FirstFrom(1, n, LAMBDA j : IntConv(ts[idx[j] + 1], 2)[1] = 0) IN
  IF Len(ts) < idx[n] + 1 THEN <<0, [j \in 1..size |-> Unset]>>
  ELSE <<B2N(b = -1), [j \in 1..size |-> IF j > n \/ (b # -1 /\ j >= b) THEN Unset ELSE IntConv(ts[idx[j] + 1], 2)[2]]>>
\* selector: every listed column that exists and converts is stored, the others are left alone
Mixed(j, t) == Conv(TypeOf(j), t)
Ints(j, t) == IntConv(t, 2)
Row(cells, ts, idx, mixed) ==
  [j \in 1..Len(cells) |-> IF j > Len(idx) \/ Len(ts) <= idx[j] THEN cells[j]
                           ELSE LET v == IF mixed THEN Mixed(j, ts[idx[j] + 1]) ELSE Ints(j, ts[idx[j] + 1]) IN IF v[1] = 1 THEN v[2] ELSE cells[j]]
RECURSIVE RowsFrom(_, _, _, _)
RowsFrom(cells, rows, idx, mixed) ==
  IF rows = <<>> THEN <<>> ELSE LET c == Row(cells, rows[1], idx, mixed) IN <<c>> \o RowsFrom(c, Tail(rows), idx, mixed)
ColumnsExpected(o, i) ==
  CASE o = "pcols" -> <<PCols(Toks(i[1], ToSetOf(i[2]), 1), i[3])>>
    [] o = "pcolseq" -> <<PColSeq(Toks(i[1], ToSetOf(i[2]), 1), i[3], i[4])>>
    [] o = "csel" -> <<RowsFrom([j \in 1..Len(i[1]) |-> Kept], i[2], i[1], TRUE)>>
    [] o = "cselsplit" -> <<Row([j \in 1..Len(i[4]) |-> Kept], Toks(i[1], ToSetOf(i[2]), i[3]), i[4], TRUE)>>
    [] o = "cselseq" -> <<IF i[3] < Len(i[1]) THEN <<-1>> ELSE RowsFrom([j \in 1..i[3] |-> Unset], i[2], i[1], FALSE)>>
ColumnsConforms(o, i, r) == r = ColumnsExpected(o, i)
=============================================================================
