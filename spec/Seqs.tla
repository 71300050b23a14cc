-------------------------------- MODULE Seqs --------------------------------
(* What the sequence utilities compute, defined on sequences of numbers.    *)
EXTENDS Bytes
TakenWhile(s, D) == LET e == FirstFrom(1, Len(s), LAMBDA k : s[k] \notin D) IN SubSeq(s, 1, IF e = -1 THEN Len(s) ELSE e - 1)
TakenUntil(s, D) == LET e == FirstFrom(1, Len(s), LAMBDA k : s[k] \in D) IN SubSeq(s, 1, IF e = -1 THEN Len(s) ELSE e - 1)
Uniques(s) == SetToSortSeq(ToSetOf(s), <)
Duplicates(s) == Cardinality({ k \in 2..Len(s) : s[k] = s[k - 1] })
Least(s) == CHOOSE x \in ToSetOf(s) : \A y \in ToSetOf(s) : x <= y
Greatest(s) == CHOOSE x \in ToSetOf(s) : \A y \in ToSetOf(s) : y <= x
Extremes(s) == IF s = <<>> THEN <<>> ELSE <<Least(s), Greatest(s)>>
Rotated(s, k) == SubSeq(s, k + 1, Len(s)) \o SubSeq(s, 1, k)
\* the least rotation: keep the better of the best so far and the next rotation
RECURSIVE BestRot(_, _, _)
BestRot(s, k, best) == IF k >= Len(s) THEN best ELSE BestRot(s, k + 1, TLCEval(LET r == Rotated(s, k) IN IF LexLT(r, best) THEN r ELSE best))
Canonical(s) == IF Len(s) < 2 THEN s ELSE BestRot(s, 1, s)
Once(s) == FirstFrom(1, Len(s), LAMBDA k : \A j \in 1..Len(s) : s[j] = s[k] => j = k)
FirstOnce(s) == IF Once(s) = -1 THEN -1 ELSE Once(s) - 1
Counting(v, n) == [k \in 1..n |-> v + k - 1]
Members(s, D) == [k \in 1..Len(s) |-> B2N(s[k] \in D)]
SeqsExpected(o, i) ==
  CASE o = "copies" -> LET s == i[1] D == ToSetOf(i[2]) IN
         <<SubSeq(s, 1, i[3]), Keep(s, LAMBDA x : x \in D), TakenWhile(s, D), TakenUntil(s, D), B2N(ToSetOf(s) \subseteq D)>>
    [] o = "figures" -> <<Uniques(i[1]), Duplicates(i[1]), Extremes(i[1]), Canonical(i[1])>>
    [] o = "once" -> <<FirstOnce(i[1])>>
    [] o = "iota" -> <<Counting(i[1], i[2])>>
    [] o = "view" -> <<i[1], Len(i[1])>>
    [] o = "members" -> <<Members(i[1], ToSetOf(i[2]))>>
    [] o = "figures_bulk" -> LET u == i[1] n == i[2] IN <<Uniques(u), n * Duplicates(u) + (n - 1) * B2N(u[1] = u[Len(u)]), Extremes(u)>>
    [] o = "copies_bulk" -> LET u == i[1] n == i[2] t == i[3] D == ToSetOf(i[4]) IN
         <<PackedThen(u, n, SubSeq(t, 1, Len(t) - 1)), PackedThen(Keep(u, LAMBDA x : x \in D), n, Keep(t, LAMBDA x : x \in D)),
           IF ToSetOf(u) \subseteq D THEN PackedThen(u, n, TakenWhile(t, D)) ELSE PackedThen(<<>>, n, TakenWhile(u, D)),
           IF ToSetOf(u) \cap D = {} THEN PackedThen(u, n, TakenUntil(t, D)) ELSE PackedThen(<<>>, n, TakenUntil(u, D)), B2N(ToSetOf(u) \cup ToSetOf(t) \subseteq D)>>
    [] o = "once_bulk" -> LET x == FirstFrom(1, Len(i[3]), LAMBDA k : i[3][k] \notin ToSetOf(i[1]) /\ \A j \in 1..Len(i[3]) : i[3][j] = i[3][k] => j = k) IN <<IF x = -1 THEN -1 ELSE Len(i[1]) * i[2] + x - 1>>
SeqsConforms(o, i, r) == r = SeqsExpected(o, i)
=============================================================================
