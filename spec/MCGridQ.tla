------------------------------ MODULE MCGridQ -------------------------------
(* Queries over every small grid shape, optionally after one edit.  The      *)
(* query relation is checked for the laws a user relies on; every (grid,     *)
(* query) pair is emitted and what the code answers is judged by QueryOK.    *)
EXTENDS Grid, Json
CONSTANTS CellSet, MaxRows, MaxCols, Rng
Cells2 == {<<>>, <<49>>}
Cells3 == {<<>>, <<49>>, <<120>>}
VARIABLES shape, g, ed, q
vars == <<shape, g, ed, q>>
RowsOf == UNION { [1..n -> CellSet] : n \in 1..MaxCols }
NoEdit == <<"none">>
Edits == { NoEdit, <<"rmrow", 0>>, <<"rmtok", 0, 1, 2>> }
TextOf(gr) == Cat([r \in 1..Len(gr) |-> JoinT(gr[r], <<44>>) \o <<10>>])
\* a row that is a single empty cell does not exist in a text
Init == /\ shape \in { x \in SeqsUpTo(RowsOf, MaxRows) : \A r \in 1..Len(x) : x[r] # <<<<>>>> } /\ g = shape /\ ed = NoEdit /\ q = <<>>
DoEdit == q = <<>> /\ ed = NoEdit /\ \E e \in Edits : e # NoEdit /\ ed' = e /\ g' = Edit(g, e)[1] /\ UNCHANGED <<shape, q>>
R2 == { ab \in (0..Rng) \X (0..Rng) : ab[1] <= ab[2] + 1 }
Full == <<0, Len(g)>>
Ranges == R2 \cup {Full}
D1 == <<44>>
Queries == { <<"col", ab[1], ab[2], c>> : ab \in Ranges, c \in 0..MaxCols }
      \cup { <<"colint", Full[1], Full[2], c>> : c \in 0..MaxCols - 1 }
      \cup { <<"cols", Full[1], Full[2], <<a, b>>>> : a \in 0..1, b \in 0..1 }
      \cup { <<"cols", Full[1], Full[2], [k \in 1..n |-> IF k = a THEN 1 ELSE 0]>> : n \in 3..5, a \in 1..5 }
      \cup { <<"accrow", r>> : r \in 0..Rng } \cup { <<"acccol", ab[1], ab[2], c>> : ab \in Ranges, c \in 0..MaxCols }
      \cup { <<"acccolp", Full[1], Full[2], c, p>> : c \in 0..1, p \in {2, 4} }
      \cup { <<"joinrow", r, D1>> : r \in 0..Rng } \cup { <<"joinrowp", r, D1, p>> : r \in 0..Rng, p \in {2, 4} }
      \cup { <<"joincol", ab[1], ab[2], c, D1>> : ab \in Ranges, c \in 0..1 }
      \cup { <<"joincolp", Full[1], Full[2], c, D1, p>> : c \in 0..1, p \in {1, 2, 4} }
      \cup { <<"part", ab[1], ab[2], p, -1>> : ab \in Ranges, p \in {1, 2, 4, 10, 11} } \cup { <<"part", Full[1], Full[2], 1, n>> : n \in 0..1 }
      \cup { <<"rows", ab[1], ab[2]>> : ab \in Ranges } \cup { <<"width", ab[1], ab[2], c>> : ab \in Ranges, c \in 0..1 }
      \cup { <<"widths">>, <<"span", 0, 1>>, <<"spanend", 1>> }
Ask == /\ q = <<>> /\ q' \in Queries /\ UNCHANGED <<shape, g, ed>>
Tell == /\ q # <<>> /\ q # <<"end">> /\ q' = <<"end">> /\ UNCHANGED <<shape, g, ed>>
        /\ PrintT(ToJson([o |-> "grid", i |-> <<TextOf(shape), <<10>>, <<44>>, 0, 0, 0, IF ed = NoEdit THEN <<q>> ELSE <<ed, q>>>>, r |-> <<>>]))
Next == DoEdit \/ Ask \/ Tell
Spec == Init /\ [][Next]_vars
\* ---- laws
TextRoundTrip == ed = NoEdit => Load(TextOf(shape), [rd |-> <<10>>, cd |-> <<44>>, opt |-> 0, dq |-> 0, trim |-> 0]) = shape
Covering == \A p \in {1, 2, 10, 11} : LET ps == Parts(g, 0, Len(g), p) IN
              /\ (g = <<>>) <=> (ps = <<>>)
              /\ \A k \in 1..Len(ps) : ps[k][1] < ps[k][2] /\ (k < Len(ps) => ps[k][2] = ps[k + 1][1])
              /\ ps # <<>> => (ps[1][1] = 0 /\ ps[Len(ps)][2] = Len(g))
\* columns together hold every cell exactly once
ColumnsCover == MaxIn([c \in 1..MaxCol(g) + 1 |-> 0]) = 0 /\
   LET n(c) == Len(HasCol(g, 0, Len(g), c)) IN FoldLeft(LAMBDA a, c : a + n(c), 0, [c \in 1..MaxCols |-> c - 1]) = Len(CellsIn(g, 0, Len(g)))
SumsAgree == AllConv(CellsIn(g, 0, Len(g))) =>
   SumOf(CellsIn(g, 0, Len(g))) = FoldLeft(LAMBDA a, c : a + SumOf(ColTexts(g, HasCol(g, 0, Len(g), c), c)), 0, [c \in 1..MaxCols |-> c - 1])
JoinSplits == (g # <<>> /\ \A k \in 1..Len(g) : \A c \in 1..Len(g[k]) : g[k][c] # <<>>) =>
   \A k \in 1..Len(g) : \A r \in {JoinT(g[k], D1)} : JoinOK(g[k], [c \in 1..Len(g[k]) |-> TRUE], D1, r) /\ SP!Texts(r, SP!Tokens(r, {44}, 0)) = g[k]
=============================================================================
