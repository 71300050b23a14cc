-------------------------------- MODULE Grid --------------------------------
(* The token grid: a sequence of rows of cells taken from a text, edited by  *)
(* a history of operations and queried in between.                           *)
(*   State:  grid  sequence of non empty rows of cell texts                  *)
(*   Events: load, remove rows / cells, enforce limits, clear, queries       *)
EXTENDS Parse
\* ---- loading
RECURSIVE Quoted(_, _)
Quoted(s, inq) == IF s = <<>> THEN <<>>
                  ELSE LET q == IF s[1] = 34 THEN ~inq ELSE inq IN <<inq \/ s[1] = 34>> \o Quoted(Tail(s), q)
Masked(s) == LET q == Quoted(s, FALSE) IN [k \in 1..Len(s) |-> IF q[k] THEN 256 ELSE s[k]]
TrimQ(t) == IF Len(t) >= 2 /\ t[1] = 34 /\ t[Len(t)] = 34 THEN SubSeq(t, 2, Len(t) - 1) ELSE t
Fields(row, c) ==
  LET ts == SP!Texts(row, SP!Tokens(IF c.dq = 1 THEN Masked(row) ELSE row, ToSetOf(c.cd), c.opt))
  IN IF c.dq = 1 /\ c.trim = 1 THEN [k \in 1..Len(ts) |-> TrimQ(ts[k])] ELSE ts
RowTexts(t, rd) == Keep(Toks(t, ToSetOf(rd), 1), LAMBDA x : x # <<>>)
Load(t, c) == LET rs == RowTexts(t, c.rd) IN [k \in 1..Len(rs) |-> Fields(rs[k], c)]
Conf(i) == [rd |-> i[2], cd |-> i[3], opt |-> i[4], dq |-> i[5], trim |-> i[6]]
\* ---- statistics
RECURSIVE MaxIn(_), MinIn(_)
MaxIn(v) == IF v = <<>> THEN 0 ELSE Max2(v[1], MaxIn(Tail(v)))
MinIn(v) == IF Len(v) <= 1 THEN (IF v = <<>> THEN 0 ELSE v[1]) ELSE Min2(v[1], MinIn(Tail(v)))
Widths(g) == [k \in 1..Len(g) |-> Len(g[k])]
MaxCol(g) == MaxIn(Widths(g))
MinCol(g) == MinIn(Widths(g))
\* what an observer of the grid sees (the lower column limit of an empty grid is left open, reported as 0)
See(g) == <<g, MaxCol(g), MinCol(g)>>
\* ---- predicates on rows and cells (k is the 0-based row index)
RowP(p, g, k) == CASE p = 0 -> FALSE [] p = 1 -> TRUE [] p = 2 -> Len(g[k + 1]) % 2 = 0
                   [] p = 3 -> g[k + 1][1] = <<97>> [] p = 4 -> k % 2 = 1 [] p = 5 -> g[k + 1][1] = <<>>
CellP(p, t) == CASE p = 0 -> FALSE [] p = 1 -> TRUE [] p = 2 -> t = <<>> [] p = 3 -> t = <<97>> [] p = 4 -> ByteSize(t) % 2 = 1
\* ---- row ranges [a, b)
BadRange(g, a, b) == a > Len(g) \/ b > Len(g) \/ a > b
InR(k, a, b) == k >= a /\ k < b
SelIdx(g, P(_)) == SelectSeq([k \in 1..Len(g) |-> k - 1], P)
RowsAt(g, ks) == [j \in 1..Len(ks) |-> g[ks[j] + 1]]
DropRows(g, a, b, P(_)) == RowsAt(g, SelIdx(g, LAMBDA k : ~(InR(k, a, b) /\ P(k))))
DropCells(g, a, b, P(_)) ==
  Keep([j \in 1..Len(g) |-> IF InR(j - 1, a, b) THEN Keep(g[j], LAMBDA t : ~P(t)) ELSE g[j]], LAMBDA r : r # <<>>)
CountIf(v, P(_)) == Len(Keep(v, P))
CellsIn(g, a, b) == Cat(SubSeq(g, a + 1, b))
\* ---- edits: Edit(g, e) = <<grid afterwards, result>>
Edit(g, e) ==
  CASE e[1] = "rmrow" -> <<IF e[2] < Len(g) THEN DropRows(g, e[2], e[2] + 1, LAMBDA k : TRUE) ELSE g, 1>>
    [] e[1] = "rmrowif" -> IF BadRange(g, e[2], e[3]) THEN <<g, 0>> ELSE <<DropRows(g, e[2], e[3], LAMBDA k : RowP(e[4], g, k)), 1>>
    [] e[1] = "rmrowall" -> <<DropRows(g, 0, Len(g), LAMBDA k : RowP(e[2], g, k)), 1>>
    [] e[1] = "rmtok" -> IF BadRange(g, e[2], e[3]) THEN <<g, 0>>
                         ELSE <<DropCells(g, e[2], e[3], LAMBDA t : CellP(e[4], t)), CountIf(CellsIn(g, e[2], e[3]), LAMBDA t : CellP(e[4], t))>>
    [] e[1] = "rmempty" -> <<DropCells(g, 0, Len(g), LAMBDA t : t = <<>>), CountIf(CellsIn(g, 0, Len(g)), LAMBDA t : t = <<>>)>>
    [] e[1] = "enforce" -> <<IF BadRange(g, e[2], e[3]) THEN g ELSE DropRows(g, e[2], e[3], LAMBDA k : Len(g[k + 1]) # e[4]), 1>>
    [] e[1] = "enforceall" -> <<DropRows(g, 0, Len(g), LAMBDA k : Len(g[k + 1]) # e[2]), 1>>
    [] e[1] = "minmax" -> <<IF BadRange(g, e[2], e[3]) THEN g ELSE DropRows(g, e[2], e[3], LAMBDA k : Len(g[k + 1]) < e[4] \/ Len(g[k + 1]) > e[5]), 1>>
    [] e[1] = "minmaxall" -> <<DropRows(g, 0, Len(g), LAMBDA k : Len(g[k + 1]) < e[2] \/ Len(g[k + 1]) > e[3]), 1>>
    [] e[1] = "clear" -> <<<<>>, 1>>
    [] e[1] = "reload" -> <<Load(e[2], Conf(Tail(e))), 1>>
    [] e[1] = "reloadfile" -> <<Load(e[2], Conf(Tail(e))), 1>>
    [] e[1] = "loadmissing" -> <<<<>>, 0>>
\* ---- queries: a grid and a query allow a set of results
Cut(v, P(_)) == Keep(v, P)
HasCol(g, a, b, c) == SelIdx(g, LAMBDA k : InR(k, a, b) /\ c < Len(g[k + 1]))
ColTexts(g, ks, c) == [j \in 1..Len(ks) |-> g[ks[j] + 1][c + 1]]
Flag(g, c, r) == IF c = MaxCol(g) THEN r \in {0, 1} ELSE r = B2N(c < MaxCol(g))
\* joining: the selected non empty texts in order, one delimiter between; a skipped last item may leave a delimiter behind
RECURSIVE JoinT(_, _)
JoinT(v, d) == IF v = <<>> THEN <<>> ELSE IF Len(v) = 1 THEN v[1] ELSE v[1] \o d \o JoinT(Tail(v), d)
JoinOK(items, sel, d, r) ==
  LET use == SelectSeq([k \in 1..Len(items) |-> k], LAMBDA k : sel[k] /\ items[k] # <<>>)
      j == JoinT([k \in 1..Len(use) |-> items[use[k]]], d)
  IN r = j \/ (use # <<>> /\ use[Len(use)] # Len(items) /\ r = j \o d)
Vals(ts) == Keep([k \in 1..Len(ts) |-> IntConv(ts[k], 2)], LAMBDA v : v[1] = 1)
AllConv(ts) == \A k \in 1..Len(ts) : IntConv(ts[k], 2)[1] = 1
RECURSIVE ValOf(_), SumOf(_)
ValOf(d) == IF d # <<>> /\ d[1] = 45 THEN -ValOf(Tail(d)) ELSE IF d = <<>> THEN 0 ELSE 10 * ValOf(SubSeq(d, 1, Len(d) - 1)) + (d[Len(d)] - 48)
SumOf(ts) == IF ts = <<>> THEN 0 ELSE ValOf(IntConv(ts[1], 2)[2]) + SumOf(Tail(ts))
AccOK(ts, counts, r) == IF AllConv(ts) THEN r[1] \in counts /\ (r[1] # 0 => r[2] = SumOf(ts)) ELSE r[1] = 0
\* partitions: boundaries before every row (other than the first) where the transition predicate holds
ChangeP(p, g, a, k) == CASE p = 10 -> k > a /\ g[k + 1][1] # g[k][1] [] p = 11 -> k = a \/ g[k + 1][1] # g[k][1] [] OTHER -> RowP(p, g, k)
Starts(g, a, b, p) == SelectSeq([k \in 1..(b - a) |-> a + k - 1], LAMBDA k : k = a \/ ChangeP(p, g, a, k))
Parts(g, a, b, p) == LET st == Starts(g, a, b, p) IN [k \in 1..Len(st) |-> <<st[k], IF k < Len(st) THEN st[k + 1] ELSE b>>]
QueryOK(g, e, r) ==
  CASE e[1] = "col" -> LET a == e[2] b == e[3] c == e[4] IN
         IF BadRange(g, a, b) THEN r = <<0, <<>>>>
         ELSE Flag(g, c, r[1]) /\ r[2] = ColTexts(g, HasCol(g, a, b, c), c)
    [] e[1] = "colint" -> LET a == e[2] b == e[3] c == e[4] ts == IF BadRange(g, a, b) THEN <<>> ELSE ColTexts(g, HasCol(g, a, b, c), c) v == Elems(ts, "i") IN
         \* checked sequence, set, multiset; unchecked (2: conversion failure reported by exception)
         /\ r[1] = v /\ r[2] = View("set", v) /\ r[3] = View("mset", v)
         /\ IF AllConv(ts) THEN r[4] = <<1, v>> ELSE r[4] = <<2, Prefix(ts, "i")[2]>>
    [] e[1] = "cols" -> LET a == e[2] b == e[3] cs == e[4] m == MaxIn(cs) IN
         IF BadRange(g, a, b) THEN r = <<0, [k \in 1..Len(cs) |-> <<>>]>>
         ELSE Flag(g, m, r[1]) /\ r[2] = [k \in 1..Len(cs) |-> ColTexts(g, HasCol(g, a, b, m), cs[k])]
    [] e[1] = "accrow" -> IF e[2] >= Len(g) THEN r[1] = 0 ELSE AccOK(g[e[2] + 1], {Len(g[e[2] + 1])}, r)
    [] e[1] = "acccol" -> LET a == e[2] b == e[3] c == e[4] IN
         IF BadRange(g, a, b) \/ c > MaxCol(g) THEN r[1] = 0
         ELSE LET ks == HasCol(g, a, b, c) IN AccOK(ColTexts(g, ks, c), {Len(ks), b - a}, r)
    [] e[1] = "acccolp" -> LET a == e[2] b == e[3] c == e[4] IN
         IF BadRange(g, a, b) THEN r[1] = 0
         ELSE LET ks == Keep(HasCol(g, a, b, c), LAMBDA k : RowP(e[5], g, k)) IN AccOK(ColTexts(g, ks, c), {Len(ks)}, r)
    [] e[1] = "joinrow" -> IF e[2] >= Len(g) THEN r = <<0, <<>>>>
         ELSE r[1] = 1 /\ JoinOK(g[e[2] + 1], [k \in 1..Len(g[e[2] + 1]) |-> TRUE], e[3], r[2])
    [] e[1] = "joinrowp" -> IF e[2] >= Len(g) THEN r = <<0, <<>>>>
         ELSE r[1] = 1 /\ JoinOK(g[e[2] + 1], [k \in 1..Len(g[e[2] + 1]) |-> CellP(e[4], g[e[2] + 1][k])], e[3], r[2])
    [] e[1] = "joincol" -> LET a == e[2] b == e[3] c == e[4] IN
         IF BadRange(g, a, b) THEN r = <<0, <<>>>>
         ELSE LET t == ColTexts(g, HasCol(g, a, b, c), c) IN Flag(g, c, r[1]) /\ JoinOK(t, [k \in 1..Len(t) |-> TRUE], e[5], r[2])
    [] e[1] = "joincolp" -> LET a == e[2] b == e[3] c == e[4] IN
         IF BadRange(g, a, b) THEN r = <<0, <<>>>>
         ELSE LET ks == HasCol(g, a, b, c) t == ColTexts(g, ks, c) IN
              Flag(g, c, r[1]) /\ JoinOK(t, [k \in 1..Len(t) |-> RowP(e[6], g, ks[k])], e[5], r[2])
    [] e[1] = "part" -> LET a == e[2] b == e[3] IN
         IF BadRange(g, a, b) THEN r = <<0, <<>>>>
         ELSE LET ps == Parts(g, a, b, e[4]) IN
              IF e[5] < 0 \/ e[5] >= Len(ps) THEN r = <<1, ps>> ELSE r = <<0, SubSeq(ps, 1, e[5] + 1)>>
    [] e[1] = "rows" -> LET a == e[2] b == e[3] IN
         IF BadRange(g, a, b) THEN r = <<0, <<>>>> ELSE r = <<b - a, [k \in 1..(b - a) |-> <<a + k - 1, Cat(g[a + k])>>]>>
    [] e[1] = "width" -> LET a == e[2] b == e[3] c == e[4] IN
         r = IF BadRange(g, a, b) THEN 0 ELSE MaxIn([k \in 1..Len(HasCol(g, a, b, c)) |-> ByteSize(ColTexts(g, HasCol(g, a, b, c), c)[k])])
    [] e[1] = "widths" -> r = [c \in 1..MaxCol(g) |-> LET t == ColTexts(g, HasCol(g, 0, Len(g), c - 1), c - 1) IN MaxIn([k \in 1..Len(t) |-> ByteSize(t[k])])]
    [] e[1] = "span" -> r = <<e[2], e[3], 1>> \/ ((e[3] > Len(g) \/ e[2] > e[3]) /\ r[3] = 0)
    [] e[1] = "spanend" -> IF e[2] <= Len(g) THEN r = <<e[2], Len(g), 1>> ELSE r[3] = 0
\* ---- reading one row
RowOK(row, e, r) ==
  CASE e[1] = "vals" -> \* typed variables from the first Len columns
         LET k == e[2] IN r = Cells(SubSeq(row, 1, Min2(k, Len(row))), k)
    [] e[1] = "vals_at" -> LET t == [j \in 1..Len(e[2]) |-> row[e[2][j] + 1]] IN r = Cells(t, Len(t))
    [] e[1] = "ints" -> \* column range into containers: sequence, set, multiset
         LET a == e[2] b == e[3] IN
         IF a > Len(row) \/ b > Len(row) \/ a > b THEN r = <<0, After("seq", Old("i"), <<>>), After("set", Old("i"), <<>>), After("mset", Old("i"), <<>>)>>
         ELSE LET p == Prefix(SubSeq(row, a + 1, b), "i") IN r = <<p[1], After("seq", Old("i"), p[2]), After("set", Old("i"), p[2]), After("mset", Old("i"), p[2])>>
    [] e[1] = "ints_n" -> LET p == Prefix(SubSeq(row, 1, Min2(e[2], Len(row))), "i") IN r = <<IF p[1] = 1 THEN Len(p[2]) ELSE 0, p[2]>>
    [] e[1] = "ints_ok" -> LET v == Elems(row, "i") IN r = <<v, View("set", v), View("mset", v)>>
    [] e[1] = "cols" -> LET a == e[2] b == e[3] IN r = IF a > Len(row) \/ b > Len(row) \/ a > b THEN <<0, <<>>>> ELSE <<b - a, SubSeq(row, a + 1, b)>>
    [] e[1] = "misc" -> r = <<Len(row), Cat(row), ByteSize(Cat(row)), [k \in 1..Len(row) |-> ByteSize(row[k])], [k \in 1..Len(row) |-> B2N(row[k] = <<>>)]>>
IsEdit(e) == e[1] \in {"rmrow", "rmrowif", "rmrowall", "rmtok", "rmempty", "enforce", "enforceall", "minmax", "minmaxall", "clear", "reload", "reloadfile", "loadmissing"}
\* a history: after the load and after every event the observer looks at the grid
RECURSIVE HistOK(_, _, _)
HistOK(g, es, rs) ==
  IF es = <<>> THEN rs = <<>>
  ELSE IF rs = <<>> THEN FALSE
  ELSE IF IsEdit(es[1]) THEN LET n == Edit(g, es[1]) IN rs[1] = <<n[2], See(n[1])>> /\ HistOK(n[1], Tail(es), Tail(rs))
  ELSE QueryOK(g, es[1], rs[1]) /\ HistOK(g, Tail(es), Tail(rs))
\* many rows: the piece, ending with a row delimiter, n times over; many columns: the piece, ending with a column delimiter, n times over
RowLine(r) == Cat([k \in 1..Len(r) |-> r[k] \o <<124>>]) \o <<10>>
GLines(g) == Cat([k \in 1..Len(g) |-> RowLine(g[k])])
Tall(g, n) == <<<<n * Len(g), MaxCol(g), MinCol(g)>>, Packed(GLines(g), n)>>
Wide(i) == LET f == Fields(i[1], Conf(i)) l == Fields(i[8], Conf(i)) IN
  \* the piece ends with a delimiter: its last field is the empty text that the next copy (or the tail) fills in
  <<i[7] * (Len(f) - 1) + Len(l), Packed(Cat([k \in 1..(Len(f) - 1) |-> f[k] \o <<124>>]), i[7]), l[Len(l)]>>
\* copies x..y-1 of the piece are edited, the others stay
OnPiece(e, m) == IF e[1] \in {"rmrowif", "rmtok", "enforce", "minmax"} THEN [e EXCEPT ![2] = 0, ![3] = m] ELSE e
TallEdit(g, n, x, y, e) ==
  LET h == Edit(g, OnPiece(e, Len(g))) all == (IF x > 0 \/ y < n THEN g ELSE <<>>) \o (IF y > x THEN h[1] ELSE <<>>)
      Part(v, k) == IF k = 0 THEN <<>> ELSE Packed(GLines(v), k)
  IN <<IF e[1] \in {"rmtok", "rmempty"} THEN h[2] * (y - x) ELSE 1, <<(n - (y - x)) * Len(g) + (y - x) * Len(h[1]), MaxCol(all), MinCol(all)>>, Part(g, x), Part(h[1], y - x), Part(g, n - y)>>
\* whole columns of many rows; every row of the piece is at least as wide as column c, no cell of the column is empty
TallQ(g, n, c) ==
  LET m == Len(g) ks == HasCol(g, 0, m, c) t == ColTexts(g, ks, c) v == Vals(t)
      \* the number of partitions grows by the same number with every further copy
      Gr(p) == LET a == Parts(g, 0, m, p) b == Parts(g \o g, 0, 2 * m, p) IN
               IF Len(b) = 1 THEN <<1, n * m, n * m>> ELSE <<Len(a) + (n - 1) * (Len(b) - Len(a)), IF n = 1 THEN a[Len(a)][2] - a[Len(a)][1] ELSE b[Len(b)][2] - b[Len(b)][1], n * m>>
  IN << <<1, n * Len(t), Packed(Cat([k \in 1..Len(t) |-> t[k] \o <<124>>]), n)>>,
        <<n * Len(v), Packed(Cat([k \in 1..Len(v) |-> v[k][2] \o <<124>>]), n)>>,
        IF AllConv(t) THEN <<n * m, n * SumOf(t)>> ELSE <<0, 0>>,
        <<1, Packed(Cat([k \in 1..Len(t) |-> t[k] \o <<45, 45>>]), n)>>,
        Gr(10) \o Gr(11),
        <<n * m, Packed(Cat([k \in 1..m |-> Cat(g[k])]), n)>>,
        MaxIn([k \in 1..Len(t) |-> Len(t[k])]) >>
\* one row of many columns: the piece holds no empty cell and ends with a delimiter, the tail is one cell, all shorter than ten
WideQ(i) == LET f == Fields(i[1], Conf(i)) k == Len(f) - 1 n == i[7] t == SubSeq(f, 1, k) IN
  << IF AllConv(Append(t, i[8])) THEN <<n * k + 1, n * SumOf(t) + SumOf(<<i[8]>>)>> ELSE <<0, 0>>,
     <<1, Packed(Cat([j \in 1..k |-> t[j] \o <<45, 45>>]), n)>>,
     <<n * k + 1, Packed(Cat([j \in 1..k |-> <<48 + Len(t[j]), 124>>]), n)>> >>
GridConforms(o, i, r) ==
  CASE o = "grid_tall" -> r = Tall(Load(i[1], Conf(i)), i[7])
    [] o = "grid_wide" -> r = Wide(i)
    [] o = "grid_talledit" -> LET g == Load(i[1], Conf(i)) IN Len(g) = i[8] /\ r = TallEdit(g, i[7], i[9], i[10], i[11])
    [] o = "grid_tallq" -> r = TallQ(Load(i[1], Conf(i)), i[7], i[8])
    [] o = "grid_wideq" -> r = WideQ(i)
    [] o = "grid_load" -> r = <<See(Load(i[1], Conf(i)))>>
    [] o = "grid" -> r[1] = See(Load(i[1], Conf(i))) /\ HistOK(Load(i[1], Conf(i)), i[7], Tail(r))
    [] o = "grid_row" -> LET g == Load(i[1], Conf(i)) IN RowOK(g[i[7] + 1], i[8], r)
\* for the reader of a rejection
GridExpected(o, i) == LET g == Load(i[1], Conf(i)) IN <<"the grid loaded is", g>>
=============================================================================
