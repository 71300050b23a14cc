------------------------------- MODULE Random -------------------------------
(* Random selection.  The generator is the environment: any draw may come   *)
(* out.  What every outcome must satisfy, and which outcomes can occur.     *)
EXTENDS Bytes
Count(x, s) == Cardinality({ k \in 1..Len(s) : s[k] = x })
\* s takes elements of t, every position at most once
From(s, t) == \A x \in ToSetOf(s) : Count(x, s) <= Count(x, t)
Shuffle(s, t) == Len(s) = Len(t) /\ From(s, t)
\* ---- the outcomes that can occur for the positions 1..n
RECURSIVE Arrange(_, _)
Arrange(S, k) == IF k = 0 THEN { <<>> } ELSE UNION { { <<x>> \o a : a \in Arrange(S \ {x}, k - 1) } : x \in S }
\* one pass over the list, holding k elements: a later one may replace any of them
RECURSIVE Pass(_, _, _)
Pass(held, next, n) == IF next > n THEN {held} ELSE Pass(held, next + 1, n) \cup UNION { Pass([held EXCEPT ![j] = next], next + 1, n) : j \in 1..Len(held) }
First(m) == [x \in 1..m |-> x]
\* valid selections when the last list is shorter than asked for: all of it
Possible(what, n, k) ==
  CASE what = "perm" -> Arrange(1..n, n)
    [] what = "comb" -> IF k > n THEN { <<>> } ELSE Arrange(1..n, k)
    [] what = "kpick" -> IF k >= n THEN { First(n) } ELSE IF k = 0 THEN { <<>> } ELSE Pass(First(k), k + 1, n)
    [] what = "onepick" -> IF n = 0 THEN { <<>> } ELSE { <<x>> : x \in 1..n }
RandomExpected(o, i) ==
  CASE o = "script" -> << SetToSortSeq(Possible(i[1], i[2], i[3]), LexLT) >>
    [] o = "outside" -> <<0, <<>>, 0, <<>>>>
    [] OTHER -> <<>>
\* every value of a short list of consecutive values turns up in a long series
Covers(lo, hi, v) == \A x \in lo..hi : x \in ToSetOf(v)
RandomConforms(o, i, r) ==
  CASE o \in {"script", "outside"} -> r = RandomExpected(o, i)
    [] o = "data" -> Len(r[1]) = i[1] /\ r[2] = 1 /\ (i[1] >= 64 => Cardinality(ToSetOf(r[1])) >= 16)
    [] o = "skip" -> r[1] = SubSeq(r[2], i[3] + 1, Len(r[2])) /\ Len(r[1]) = i[2]
    [] o = "vals" -> Len(r[1]) = i[2] /\ (\A k \in 1..i[2] : r[1][k] >= i[3] /\ r[1][k] <= i[4]) /\ ((i[4] \div 2) - (i[3] \div 2) < 4 /\ i[2] >= 400 => Covers(i[3], i[4], r[1]))
    \* flags: at least the lower bound, below the upper bound, quarter of the range
    [] o = "reals" -> Len(r[1]) = i[2] /\ (\A k \in 1..i[2] : r[1][k][1] = 1 /\ r[1][k][2] = 1) /\ (i[2] >= 400 => { r[1][k][3] : k \in 1..i[2] } = 0..3)
    [] o = "perm" -> Shuffle(r[1], i[1])
    [] o = "comb" -> IF i[2] > Len(i[1]) THEN r[1] = <<>> ELSE Len(r[1]) = i[2] /\ From(r[1], i[1])
    [] o = "kpick" -> r[2] = Min2(i[2], Len(i[1])) /\ Len(r[1]) = r[2] /\ From(r[1], i[1]) /\ (i[2] >= Len(i[1]) => r[1] = i[1])
    [] o = "onepick" -> IF i[1] = <<>> THEN r[1] = <<>> ELSE Len(r[1]) = 1 /\ r[1][1] \in ToSetOf(i[1])
    \* over many seeds everything possible turns up
    [] o = "seeds" -> r[1] = SetToSortSeq(Possible(i[1], i[2], i[3]), LexLT)
=============================================================================
