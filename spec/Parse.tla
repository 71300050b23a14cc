------------------------------- MODULE Parse --------------------------------
(* Multi-value and container parsing: the tokens of a text are consumed in   *)
(* order and converted into a row of typed cells or appended to a container. *)
EXTENDS Num
SP == INSTANCE Split
Toks(s, D, opt) == SP!Texts(s, SP!Tokens(s, D, opt))
\* type of the k-th variable (1 based): int, string, unsigned short, int, ...
TypeOf(k) == IF k % 3 = 1 THEN "i" ELSE IF k % 3 = 2 THEN "s" ELSE "u"
Conv(ty, t) == CASE ty = "i" -> IntConv(t, 2) [] ty = "u" -> IntConv(t, 1) [] ty = "s" -> <<1, t>>
\* ---- one assignment step of a parse: cells filled left to right
FirstBad(ts, k) == FirstFrom(1, k, LAMBDA j : Conv(TypeOf(j), ts[j])[1] = 0)
Cells(ts, k) ==      \* outcome of converting the first k tokens into k variables
  IF Len(ts) < k THEN <<0, [j \in 1..k |-> Kept]>>
  ELSE LET b == FirstBad(ts, k) IN
       <<B2N(b = -1), [j \in 1..k |-> IF b # -1 /\ j >= b THEN Kept ELSE Conv(TypeOf(j), ts[j])[2]]>>
ParseCells(s, D, k) == Cells(Toks(s, D, 1), k)
\* ---- lines
RECURSIVE Lines(_)
Lines(s) == LET e == FirstFrom(0, Len(s) - 1, LAMBDA q : s[q + 1] = 10) IN
            IF s = <<>> THEN <<>> ELSE IF e = -1 THEN <<s>> ELSE <<Sub(s, 0, e)>> \o Lines(Sub(s, e + 1, Len(s)))
LineCells(ln, D, k) == IF ln = <<>> \/ D = {} THEN <<0, [j \in 1..k |-> Kept]>> ELSE ParseCells(ln, D, k)
\* ---- containers of int ("i") or string ("s"); kinds by their ordering
IntToks(ts) == Keep([k \in 1..Len(ts) |-> IntConv(ts[k], 2)], LAMBDA v : v[1] = 1)
Elems(ts, ty) == IF ty = "s" THEN ts ELSE LET v == IntToks(ts) IN [k \in 1..Len(v) |-> v[k][2]]
Sorted(v) == SortSeq(v, LexLT)
RECURSIVE Dedup(_)
Dedup(v) == IF Len(v) < 2 THEN v ELSE IF v[1] = v[2] THEN Dedup(Tail(v)) ELSE <<v[1]>> \o Dedup(Tail(v))
View(kind, v) == CASE kind = "seq" -> v [] kind = "mset" -> Sorted(v) [] kind = "set" -> Dedup(Sorted(v))
\* values fed in order until one does not convert
Prefix(ts, ty) == LET b == FirstFrom(1, Len(ts), LAMBDA k : ty = "i" /\ IntConv(ts[k], 2)[1] = 0)
                  IN <<B2N(b = -1), Elems(IF b = -1 THEN ts ELSE SubSeq(ts, 1, b - 1), ty)>>
\* what a container holds after the values old had been put in first
After(kind, old, v) == View(kind, old \o v)
Old(ty) == IF ty = "i" THEN <<<<53>>>> ELSE <<<<122, 122>>>>
Cont(s, D, opt, n, ty) ==
  LET ts == Toks(s, D, opt)
      use == IF n < 0 THEN ts ELSE SubSeq(ts, 1, Min2(n, Len(ts)))
      v == Elems(use, ty)
      ret(kind) == IF n < 0 THEN Len(ts) ELSE Len(After(kind, Old(ty), v)) - Len(After(kind, Old(ty), <<>>))
  IN <<ret("seq"), After("seq", Old(ty), v), ret("set"), After("set", Old(ty), v), ret("mset"), After("mset", Old(ty), v)>>
\* many copies of a piece that begins with no delimiter and ends with one, then a last field; either all fields, or those of the copies
ContBulk(u, D, opt, all, n, ty, last) ==
  LET ts == Toks(u, D, opt) f == SubSeq(ts, 1, Len(ts) - 1)
      e == Elems(f, ty) z == IF all THEN Elems(<<last>>, ty) ELSE <<>>
      s == Dedup(Sorted(Old(ty) \o e \o z))
      times(v) == Cardinality({k \in 1..Len(e) : e[k] = v}) * n + Cardinality({k \in 1..Len(z) : z[k] = v}) + B2N(v = Old(ty)[1])
      count == n * Len(f) + 1
  IN <<IF all THEN count ELSE n * Len(e), <<Old(ty)[1], Packed(Cat([k \in 1..Len(e) |-> e[k] \o <<124>>]), n), z>>,
       IF all THEN count ELSE Len(s) - 1, s, IF all THEN count ELSE n * Len(e), [k \in 1..Len(s) |-> <<s[k], times(s[k])>>]>>
\* ---- filters
FieldHit(f, pats, ci) == \E k \in 1..Len(pats) : IF ci = 1 THEN LowerS(pats[k]) = LowerS(f) ELSE pats[k] = f
WILD == INSTANCE Search
ParseExpected(o, i) ==
  CASE o = "parse" -> <<ParseCells(i[1], ToSetOf(i[2]), i[3])>>
    [] o = "parse_lines" -> LET ls == Lines(i[1]) IN <<[c \in 1..i[4] |-> IF c <= Len(ls) THEN LineCells(ls[c], ToSetOf(i[2]), i[3]) ELSE <<0, [j \in 1..i[3] |-> Kept]>>]>>
    [] o = "parse_argv" -> LET ts == Tail(i[1]) k == i[2] b == IF Len(ts) = k THEN FirstBad(ts, k) ELSE -1 IN
                           <<IF Len(ts) # k THEN <<0, [j \in 1..k |-> Kept]>>
                             ELSE <<IF b = -1 THEN k ELSE b - 1, Cells(ts, k)[2]>>>>
    [] o = "argv_seq" -> LET p == Prefix(i[1], "i") IN
                         <<IF i[2] = 1 THEN <<IF p[1] = 1 THEN Len(i[1]) ELSE Len(p[2]), p[2]>> ELSE <<Len(i[1]), Elems(i[1], "i")>>>>
    [] o = "parse_tail" -> LET ts == Toks(i[1], ToSetOf(i[2]), 1) k == i[3] c == Cells(ts, k)
                               none == [j \in 1..k |-> Kept]
                               p == Prefix(SubSeq(ts, k + 1, Len(ts)), "i") IN
                           <<IF Len(ts) < k + 1 THEN <<0, none, After(i[4], Old("i"), <<>>)>>
                             ELSE IF c[1] = 0 THEN <<0, c[2], After(i[4], Old("i"), <<>>)>>
                             ELSE <<p[1], c[2], After(i[4], Old("i"), p[2])>>>>
    [] o = "cont" -> <<Cont(i[1], ToSetOf(i[2]), i[3], i[4], i[5])>>
    [] o = "cont_bulk" -> ContBulk(i[1], ToSetOf(i[2]), i[3], i[4] < 0, i[5], i[6], i[7])
    [] o = "cont_lines" -> LET ls == Lines(i[1]) ts == IF ls = <<>> \/ ls[1] = <<>> \/ i[2] = <<>> THEN <<>> ELSE ls[1] IN
                           <<Cont(ts, ToSetOf(i[2]), i[3], i[4], "i")>>
    [] o = "filter" -> <<Keep(i[1], LAMBDA f : FieldHit(f, i[2], i[3]) <=> i[4] = 1)>>
    [] o = "wfilter" -> <<Keep(i[1], LAMBDA f : WILD!Accepts(i[2], f, 42, 63) <=> i[3] = 1)>>
    [] o = "nonempty" -> <<Keep(Toks(i[1], ToSetOf(i[2]), 0), LAMBDA f : f # <<>>)>>
    [] o = "sizes" -> <<<<B2N(Len(i[1]) = 3), B2N(Len(i[1]) < 3), B2N(Len(i[1]) > 3), B2N(Len(i[1]) % 2 = 0), B2N(Len(i[1]) % 2 = 1)>>>>
ParseConforms(o, i, r) == r = ParseExpected(o, i)
=============================================================================
