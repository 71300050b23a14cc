------------------------------- MODULE Tools --------------------------------
(* The bundled command line programs as functions of their whole input:     *)
(* what each has to print, byte for byte.                                    *)
EXTENDS Bytes
N == INSTANCE Num
S == INSTANCE Search
LF == 10
\* ---- lines: a final line needs no terminator, a final terminator starts no line
RECURSIVE LinesOf(_, _)
LinesOf(b, cur) == IF b = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                   ELSE IF b[1] = LF THEN <<cur>> \o LinesOf(Tail(b), <<>>) ELSE LinesOf(Tail(b), Append(cur, b[1]))
Lines(b) == LinesOf(b, <<>>)
RECURSIVE DecU(_)
DecU(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecU(n \div 10), 48 + (n % 10))
DecS(n) == IF n < 0 THEN <<45>> \o DecU(-n) ELSE DecU(n)
PadL(w, c, t) == Rep(c, IF ByteSize(t) < w THEN w - ByteSize(t) ELSE 0) \o t
\* ---- words: maximal runs of letters, case folded
Letter(c) == IsUpper(ByteOf(c)) \/ IsLower(ByteOf(c))
WordsOf(b) ==
  LET B == SelectSeq([k \in 1..Len(b) |-> k], LAMBDA k : Letter(b[k]) /\ (k = 1 \/ ~Letter(b[k - 1])))
      E == SelectSeq([k \in 1..Len(b) |-> k], LAMBDA k : Letter(b[k]) /\ (k = Len(b) \/ ~Letter(b[k + 1])))
  IN [k \in 1..Len(B) |-> LowerS(SubSeq(b, B[k], E[k]))]
SortedTexts(T) == SetToSortSeq(T, LexLT)
\* n/m < 1 with d decimals, rounded: digit by digit
RECURSIVE FracDigits(_, _, _)
FracDigits(r, m, d) == IF d = 0 THEN <<>> ELSE <<(10 * r) \div m>> \o FracDigits((10 * r) % m, m, d - 1)
RECURSIVE RestAfter(_, _, _)
RestAfter(r, m, d) == IF d = 0 THEN r ELSE RestAfter((10 * r) % m, m, d - 1)
RECURSIVE BumpDigits(_)
BumpDigits(ds) == IF ds[Len(ds)] < 9 THEN [ds EXCEPT ![Len(ds)] = @ + 1] ELSE Append(BumpDigits(SubSeq(ds, 1, Len(ds) - 1)), 0)
\* half way: to the even digit
RoundFrac(r, m, d) == LET ds == TLCEval(FracDigits(r, m, d)) x == 2 * RestAfter(r, m, d) IN IF x > m \/ (x = m /\ ds[d] % 2 = 1) THEN BumpDigits(ds) ELSE ds
\* zeros after the point
RECURSIVE Zeros(_, _)
Zeros(r, m) == IF r = 0 \/ 10 * r >= m THEN 0 ELSE 1 + Zeros(10 * r, m)
Chars(ds) == [k \in 1..Len(ds) |-> 48 + ds[k]]
Ratio(n, m) == IF n = m THEN <<49, 46>> \o Rep(48, 9) ELSE <<48, 46>> \o Chars(RoundFrac(n, m, 9))
WordsOut(b) ==
  LET ws == TLCEval(WordsOf(b)) u == SortedTexts(ToSetOf(ws)) n == Len(ws) IN
  <<87, 111, 114, 100, 32, 99, 111, 117, 110, 116, 58, 32>> \o DecU(n) \o <<LF>> \o <<85, 110, 105, 113, 117, 101, 32, 119, 111, 114, 100, 32, 99, 111, 117, 110, 116, 58, 32>> \o DecU(Len(u)) \o <<LF>>
    \o Cat([k \in 1..Len(u) |-> LET c == Len(Keep(ws, LAMBDA w : w = u[k])) IN PadL(15, 32, u[k]) \o <<32>> \o PadL(10, 32, DecU(c)) \o <<32>> \o Ratio(c, n) \o <<LF>>])
\* ---- statistics of rows and columns of integers; other tokens are ignored
RECURSIVE FieldsOf(_, _)
FieldsOf(b, cur) == IF b = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                    ELSE IF b[1] \in {32, 44} THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o FieldsOf(Tail(b), <<>>) ELSE FieldsOf(Tail(b), Append(cur, b[1]))
Table(b) == LET ls == Lines(b) IN Keep([k \in 1..Len(ls) |-> FieldsOf(ls[k], <<>>)], LAMBDA f : f # <<>>)
NumTok(t) == N!IntOk(t, 2)
ValOf(t) == IF t[1] = 45 THEN -N!NumOf(Tail(t)) ELSE IF t[1] = 43 THEN N!NumOf(Tail(t)) ELSE N!NumOf(t)
Values(ts) == LET v == Keep(ts, NumTok) IN [k \in 1..Len(v) |-> ValOf(v[k])]
RECURSIVE Total(_)
Total(v) == IF v = <<>> THEN 0 ELSE v[1] + Total(Tail(v))
RECURSIVE DropTail0(_)
DropTail0(s) == IF s = <<>> \/ s[Len(s)] # 48 THEN s ELSE DropTail0(SubSeq(s, 1, Len(s) - 1))
\* sum/n to six significant digits (no value here rounds up to the next power of ten)
Mean(sum, n) == LET a == IF sum < 0 THEN -sum ELSE sum q == a \div n r == a % n
                    f == IF r = 0 THEN <<>> ELSE DropTail0(Chars(RoundFrac(r, n, IF q = 0 THEN 6 + Zeros(r, n) ELSE 6 - Len(DecU(q))))) IN
                (IF sum < 0 THEN <<45>> ELSE <<>>) \o DecU(q) \o (IF f = <<>> THEN <<>> ELSE <<46>> \o f)
StatRow(v) == LET s == SortSeq(v, <) IN Cat([k \in 1..5 |-> (CASE k = 1 -> DecS(s[1]) [] k = 2 -> DecS(s[Len(s)]) [] k = 3 -> DecS(Total(v)) [] k = 4 -> Mean(Total(v), Len(v)) [] OTHER -> DecS(s[(Len(s) \div 2) + 1])) \o <<9>>]) \o <<LF>>
Line(c, k, v) == IF v = <<>> THEN <<>> ELSE <<c, 91>> \o DecU(k - 1) \o <<93, 9>> \o StatRow(v)
Column(t, k) == LET rs == Keep(t, LAMBDA r : Len(r) >= k) IN [j \in 1..Len(rs) |-> rs[j][k]]
Width(t) == LET W == { Len(t[k]) : k \in 1..Len(t) } IN IF W = {} THEN 0 ELSE CHOOSE w \in W : \A x \in W : x <= w
StatsOut(b) == LET t == TLCEval(Table(b)) IN
  Cat([k \in 1..Width(t) |-> Line(67, k, Values(Column(t, k)))]) \o Cat([k \in 1..Len(t) |-> Line(82, k, Values(t[k]))])
\* ---- every pattern that matches a line, in order of the patterns
SortTexts(ps) == SortSeq(ps, LexLT)
GlobOut(ps, b) == LET ls == Lines(b) sp == SortTexts(ps) IN
  Cat([k \in 1..Len(ls) |-> Cat([p \in 1..Len(sp) |-> IF S!Accepts(sp[p], ls[k], 42, 63) THEN sp[p] \o <<32, 109, 97, 116, 99, 104, 101, 100, 32>> \o ls[k] \o <<LF>> ELSE <<>>])])
\* ---- hex view: rows of sixteen
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
RECURSIVE HexU(_)
HexU(n) == IF n < 16 THEN <<HexDigit(n)>> ELSE Append(HexU(n \div 16), HexDigit(n % 16))
HexRow(a, c) == PadL(10, 48, HexU(a)) \o <<32>> \o Cat([k \in 1..Len(c) |-> <<HexDigit(c[k] \div 16), HexDigit(c[k] % 16)>>]) \o Rep(32, 33 - 2 * Len(c))
                \o [k \in 1..Len(c) |-> IF c[k] >= 33 /\ c[k] <= 126 THEN c[k] ELSE 46] \o <<LF>>
HexOut(b) == Cat([k \in 1..((Len(b) + 15) \div 16) |-> HexRow(16 * (k - 1), SubSeq(b, 16 * (k - 1) + 1, Min2(16 * k, Len(b))))])
\* ---- combinations of the arguments
RECURSIVE Picks(_, _, _)
Picks(lo, n, k) == IF k = 0 THEN << <<>> >> ELSE IF n - lo < k THEN <<>>
                   ELSE LET s == Picks(lo + 1, n, k - 1) IN TLCEval([x \in 1..Len(s) |-> <<lo + 1>> \o s[x]]) \o Picks(lo + 1, n, k)
RECURSIVE Tabbed(_)
Tabbed(v) == IF Len(v) = 1 THEN v[1] ELSE v[1] \o <<9>> \o Tabbed(Tail(v))
ComboOut(args) ==
  IF Len(args) < 2 THEN <<1, <<>>>>
  ELSE IF ~N!IntOk(args[1], 5) THEN <<1, <<>>>>
  ELSE IF N!Strip0(N!Body(args[1])) = <<>> THEN <<0, <<>>>>
  ELSE LET sig == N!Strip0(N!Body(args[1])) items == SortTexts(Tail(args)) IN
       IF Len(sig) > 3 \/ N!NumOf(sig) > Len(items) THEN <<1, <<>>>>
       ELSE LET c == Picks(0, Len(items), N!NumOf(sig)) IN <<0, Cat([x \in 1..Len(c) |-> Tabbed([j \in 1..Len(c[x]) |-> items[c[x][j]]]) \o <<LF>>])>>
\* ---- dotted quads: exactly four numbers up to 255
DotParts(t) == LET d == SelectSeq([k \in 1..Len(t) |-> k], LAMBDA k : t[k] = 46) e == <<0>> \o d \o <<Len(t) + 1>> IN [k \in 1..(Len(e) - 1) |-> SubSeq(t, e[k] + 1, e[k + 1] - 1)]
Octet(p) == p # <<>> /\ N!AllDigits(p) /\ Len(N!Strip0(p)) <= 3 /\ N!NumOf(N!Strip0(p)) <= 255
AddrOut(t) == LET p == DotParts(t) IN IF Len(p) = 4 /\ (\A k \in 1..4 : Octet(p[k])) THEN <<1, [k \in 1..4 |-> N!NumOf(p[k])]>> ELSE <<0, <<>>>>
\* ---- periods: <<number, unit letters>> groups, each unit once; only days may be negative
UnitChars == ToSetOf(<<68, 72, 82, 77, 73, 78, 83, 69, 67, 100, 104, 114, 109, 105, 110, 115, 101, 99, 32, 58>>)
RECURSIVE Groups(_, _)
Groups(t, cur) == IF t = <<>> THEN (IF cur = <<>> THEN <<>> ELSE << <<cur, 0>> >>)
                  ELSE IF t[1] \notin UnitChars THEN Groups(Tail(t), Append(cur, t[1]))
                  ELSE LET n == FirstFrom(1, Len(t), LAMBDA k : k = Len(t) \/ t[k + 1] \notin UnitChars) IN << <<cur, Upper(t[1])>> >> \o Groups(SubSeq(t, n + 1, Len(t)), <<>>)
UnitMs(u) == CASE u = 68 -> 86400000 [] u = 72 -> 3600000 [] u = 77 -> 60000 [] u = 83 -> 1000 [] OTHER -> 0
\* value of ddd.fff units in milliseconds (three decimals at most)
Pad3(f) == f \o Rep(48, 3 - Len(f))
MsOf(t, u) == LET b == N!Body(t) p == N!DotPos(b) w == SubSeq(b, 1, p) f == SubSeq(b, p + 2, Len(b)) IN N!NumOf(w) * UnitMs(u) + N!NumOf(Pad3(f)) * (UnitMs(u) \div 1000)
PeriodOk(g) == /\ g # <<>> /\ Cardinality({ g[k][2] : k \in 1..Len(g) }) = Len(g)
               /\ \A k \in 1..Len(g) : N!IsDecimal(g[k][1]) /\ g[k][2] \in {68, 72, 77, 83} /\ (g[k][2] # 68 => (~N!IsNeg(g[k][1]) \/ MsOf(g[k][1], g[k][2]) = 0))
PeriodMs(g) == Total([k \in 1..Len(g) |-> (IF N!IsNeg(g[k][1]) THEN -1 ELSE 1) * MsOf(g[k][1], g[k][2])])
\* the products are formed in floating point and cut: each group may come out one short
PeriodConforms(t, r) == LET g == Groups(t, <<>>) IN IF PeriodOk(g) THEN r[1] = 1 /\ r[2] - PeriodMs(g) \in -4..4 ELSE r[1] = 0
Orders(v) == { [k \in 1..Len(v) |-> v[f[k]]] : f \in { h \in [1..Len(v) -> 1..Len(v)] : \A a, b \in 1..Len(v) : (h[a] = h[b]) => a = b } }
Count(v, x) == Len(Keep(v, LAMBDA y : y = x))
ToolsExpected(o, i) ==
  CASE o = "words" -> <<0, IF i[1] = 2 THEN WordsOut(<<>>) ELSE WordsOut(i[2])>>
    [] o = "stats" -> <<0, IF i[1] = 2 THEN <<>> ELSE StatsOut(i[2])>>
    [] o = "glob" -> IF i[1] = <<>> THEN <<1, <<>>>> ELSE <<0, GlobOut(i[1], i[2])>>
    [] o = "hex" -> <<0, HexOut(i[1])>>
    [] o = "combos" -> ComboOut(i[1])
    [] o = "addr" -> <<AddrOut(i[1])>>
    [] OTHER -> <<>>
ToolsConforms(o, i, r) ==
  CASE o = "period" -> PeriodConforms(i[1], r)
    \* one random order of all lines
    [] o = "shuffle" -> LET a == Lines(i[2]) b == Lines(r[2]) IN r[1] = 0 /\ Len(a) = Len(b) /\ \A x \in ToSetOf(a) \cup ToSetOf(b) : Count(a, x) = Count(b, x)
    \* over many starting times: every order appears
    [] o = "shuffles" -> ToSetOf(r) = Orders([k \in 1..i[1] |-> k])
    \* one of the lines; none gives an empty line
    [] o = "pick" -> LET a == Lines(i[1]) IN r[1] = 0 /\ (IF a = <<>> THEN r[2] = <<LF>> ELSE \E k \in 1..Len(a) : r[2] = Append(a[k], LF))
    \* over many starting times: each of n lines about equally often (five standard deviations)
    [] o = "picks" -> Len(r) = i[1] /\ Total(r) = i[3] /\ \A k \in 1..i[1] : LET d == i[1] * r[k] - i[3] IN d * d <= 25 * i[3] * (i[1] - 1)
    [] OTHER -> r = ToolsExpected(o, i)
=============================================================================
