------------------------------- MODULE Combi --------------------------------
(* Combinations, permutations and their counts.                             *)
EXTENDS Bytes
\* ---- counting with numbers of any size: digits, least significant first
RECURSIVE MulD(_, _, _), DivD(_, _, _), Digs(_)
Digs(n) == IF n = 0 THEN <<>> ELSE <<n % 10>> \o Digs(n \div 10)
MulD(d, m, c) == IF d = <<>> THEN Digs(c) ELSE LET x == (d[1] * m) + c IN <<x % 10>> \o MulD(Tail(d), m, x \div 10)
\* most significant first for division by a small number
DivD(d, m, r) == IF d = <<>> THEN <<>> ELSE LET x == (r * 10) + d[1] IN <<x \div m>> \o DivD(Tail(d), m, x % m)
RECURSIVE Trim0(_)
Trim0(d) == IF d # <<>> /\ d[1] = 0 THEN Trim0(Tail(d)) ELSE d
Quot(d, m) == Rev(Trim0(DivD(Rev(d), m, 0)))
ChooseBig(n, k) == IF k > n THEN <<>> ELSE FoldLeft(LAMBDA d, j : Quot(MulD(d, (n - k) + j, 0), j), <<1>>, [j \in 1..k |-> j])
Text(d) == IF d = <<>> THEN <<48>> ELSE LET t == Rev(d) IN [x \in 1..Len(t) |-> t[x] + 48]
\* ---- counting with small numbers
Number(d) == FoldLeft(LAMBDA a, x : (a * 10) + x, 0, Rev(d))
Pick(n, k) == IF k < 0 \/ k > n THEN 0 ELSE Number(ChooseBig(n, Min2(k, n - k)))
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
\* ---- all k-combinations of positions lo..n-1, in order
RECURSIVE Combs(_, _, _)
Combs(lo, n, k) == IF k = 0 THEN << <<>> >> ELSE IF n - lo < k THEN <<>>
                   ELSE LET s == Combs(lo + 1, n, k - 1) IN TLCEval([x \in 1..Len(s) |-> <<lo>> \o s[x]]) \o Combs(lo + 1, n, k)
At(items, ix) == [x \in 1..Len(ix) |-> items[ix[x] + 1]]
AllOf(items, k) == LET c == Combs(0, Len(items), k) IN TLCEval([x \in 1..Len(c) |-> TLCEval(At(items, c[x]))])
Ordered(items) == SortSeq(items, LAMBDA a, b : a < b)
\* the distinct selections of a sorted list with repetitions
Distinct(items, k) == SetToSortSeq(ToSetOf(AllOf(Ordered(items), k)), LexLT)
\* ---- n-th in the enumeration
RECURSIVE NthC(_, _, _, _)
NthC(i, lo, n, k) == IF k = 0 THEN <<>>
                     ELSE LET c == Pick(n - lo - 1, k - 1) IN IF i < c THEN <<lo>> \o NthC(i, lo + 1, n, k - 1) ELSE NthC(i - c, lo + 1, n, k)
Missing(ix, n) == LET s == ToSetOf(ix) IN Keep([x \in 1..n |-> x - 1], LAMBDA p : p \notin s)
Whole(ix, n) == ix \o Missing(ix, n)
RECURSIVE NthP(_, _)
NthP(i, left) == IF left = <<>> THEN <<>>
                 ELSE LET f == Fact(Len(left) - 1) q == i \div f IN <<left[q + 1]>> \o NthP(i % f, SubSeq(left, 1, q) \o SubSeq(left, q + 2, Len(left)))
Idx(n) == [x \in 1..n |-> x - 1]
\* ---- the same with positions of any size, given as text
BigOf(t) == Rev(Trim0([x \in 1..Len(t) |-> t[x] - 48]))
Get(d, x) == IF x <= Len(d) THEN d[x] ELSE 0
LessD(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLT(Rev(a), Rev(b))
\* a - b for b <= a
MinusD(a, b) == LET w == FoldLeft(LAMBDA s, x : LET v == a[x] - Get(b, x) - s[2] IN IF v < 0 THEN << Append(s[1], v + 10), 1 >> ELSE << Append(s[1], v), 0 >>,
                                  << <<>>, 0 >>, [x \in 1..Len(a) |-> x])
                IN Rev(Trim0(Rev(w[1])))
RECURSIVE NthCBig(_, _, _, _)
NthCBig(i, lo, n, k) == IF k = 0 THEN <<>>
                        ELSE LET c == TLCEval(ChooseBig(n - lo - 1, Min2(k - 1, n - lo - k)))
                             IN IF LessD(i, c) THEN <<lo>> \o NthCBig(i, lo + 1, n, k - 1) ELSE NthCBig(MinusD(i, c), lo + 1, n, k)
\* the digits of i in the factorial number system: how many of the smaller items left to skip
RECURSIVE FactDigits(_, _, _)
FactDigits(i, j, n) == IF j > n THEN <<>> ELSE LET dr == FoldLeft(LAMBDA r, x : ((r * 10) + x) % j, 0, Rev(i)) IN Append(FactDigits(Quot(i, j), j + 1, n), dr)
RECURSIVE Skipping(_, _)
Skipping(c, left) == IF c = <<>> THEN <<>> ELSE <<left[c[1] + 1]>> \o Skipping(Tail(c), SubSeq(left, 1, c[1]) \o SubSeq(left, c[1] + 2, Len(left)))
NthPBig(i, n) == Skipping(FactDigits(i, 1, n), Idx(n))
\* ---- the arrangements that follow s in order (each once), s itself first
RECURSIVE Descent(_)
Descent(s) == IF Len(s) < 2 \/ s[Len(s) - 1] < s[Len(s)] THEN Len(s) ELSE Descent(SubSeq(s, 1, Len(s) - 1))
NextP(s) == LET p == Descent(s) - 1 IN       \* last position with a larger successor
            IF p < 1 THEN <<>> ELSE LET q == CHOOSE x \in (p + 1)..Len(s) : s[x] > s[p] /\ \A y \in (x + 1)..Len(s) : s[y] <= s[p]
                                        sw == [s EXCEPT ![p] = s[q], ![q] = s[p]] IN SubSeq(sw, 1, p) \o Rev(SubSeq(sw, p + 1, Len(s)))
RECURSIVE From(_)
From(s) == LET n == NextP(s) IN IF n = <<>> THEN <<s>> ELSE <<s>> \o From(n)
Upto(v, stop) == IF stop = 0 \/ stop > Len(v) THEN v ELSE SubSeq(v, 1, stop)
\* from the combination with number i (1 based) of distinct sorted items
CombiExpected(o, i) ==
  CASE o = "choose" -> <<[x \in 1..Len(i[1]) |-> Text(ChooseBig(i[1][x][1], i[1][x][2]))]>>
    \* items, k, stop: the selections visited, and the range after a complete visit
    [] o = "fcomb" -> LET n == Len(i[1]) v == IF i[2] > n THEN <<>> ELSE AllOf(i[1], i[2]) IN <<Upto(v, i[3]), IF i[3] = 0 \/ i[3] > Len(v) THEN i[1] ELSE <<>>>>
    [] o = "fperm" -> LET v == From(i[1]) IN <<Upto(v, i[2]), B2N(i[2] = 0 \/ i[2] > Len(v)), IF i[2] = 0 \/ i[2] > Len(v) THEN Ordered(i[1]) ELSE <<>>>>
    \* items, k, number to start from: the selections from there on, and the range at the end
    [] o = "ncomb" -> LET d == Distinct(i[1], i[2]) IN <<SubSeq(d, i[3] + 1, Len(d)), Ordered(i[1])>>
    [] o = "citer" -> LET d == Distinct(i[1], i[2]) IN <<[x \in 1..((Len(d) + i[3] - 1) \div i[3]) |-> d[((x - 1) * i[3]) + 1]]>>
    [] o = "nthc" -> LET ix == NthC(i[1], 0, i[2], i[3]) IN <<ix, Whole(ix, i[2])>>
    [] o = "nthcs" -> LET ix == NthC(i[1], 0, Len(i[2]), i[3]) IN <<At(i[2], ix), At(i[2], Whole(ix, Len(i[2])))>>
    [] o = "nthp" -> LET ix == NthP(i[1], Idx(Len(i[2]))) IN <<ix, At(i[2], ix)>>
    [] o = "bigc" -> LET n == Len(i[2]) ix == NthCBig(BigOf(i[1]), 0, n, i[3]) IN <<ix, Whole(ix, n), At(i[2], ix), At(i[2], Whole(ix, n))>>
    [] o = "bigp" -> LET ix == NthPBig(BigOf(i[1]), Len(i[2])) IN <<ix, At(i[2], ix)>>
CombiConforms(o, i, r) == r = CombiExpected(o, i)
=============================================================================
