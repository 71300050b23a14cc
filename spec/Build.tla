------------------------------- MODULE Build --------------------------------
(* Building text: a text is what was in it before followed by its parts.    *)
EXTENDS Bytes
RECURSIVE Join(_, _)
Join(d, ps) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o d \o Join(d, Tail(ps))
\* elements chosen by their length
Wants(w, n, p) == CASE w = "eq" -> Len(p) = n [] w = "lt" -> Len(p) < n [] w = "gt" -> Len(p) > n [] w = "even" -> Len(p) % 2 = 0 [] w = "odd" -> Len(p) % 2 = 1
Chosen(w, n, ps) == Keep(ps, LAMBDA p : Wants(w, n, p))
Times(n, s) == Cat(Rep(s, n))
Sorted(ps) == SortSeq(ps, LexLT)
Unique(ps) == SetToSortSeq(ToSetOf(ps), LexLT)
Slice(p, a, b) == SubSeq(p, a + 1, Min2(b, Len(p)))
\* every step'th element is followed by x
Woven(items, step, x) == Cat([k \in 1..Len(items) |-> IF step > 0 /\ k % step = 0 THEN <<items[k], x>> ELSE <<items[k]>>])
Table(a, b) == [c \in 0..255 |-> LET m == { k \in 1..Len(a) : a[k] = c } IN IF m = {} THEN c ELSE b[Max(m)]]
BuildExpected(o, i) ==
  CASE o = "construct" -> <<i[1] \o Join(i[2], i[3])>>
    \* appended to a text / in a sorted set / in a sorted list with repetitions
    [] o \in {"join", "joini"} -> <<i[1] \o Join(i[2], i[3]), i[1] \o Join(i[2], Unique(i[3])), i[1] \o Join(i[2], Sorted(i[3]))>>
    [] o = "join_if" -> LET c == Chosen(i[4], i[5], i[3]) IN <<i[1] \o Join(i[2], c), i[1] \o Join(i[2], Unique(c)), i[1] \o Join(i[2], Sorted(c))>>
    [] o = "replicate" -> <<Times(i[1], i[2]), i[3] \o Times(i[1], i[2]), Times(i[1] + 1, i[2])>>
    [] o = "bracketize" -> LET b(ps) == Cat([k \in 1..Len(ps) |-> i[2] \o ps[k] \o i[3]]) IN <<i[1] \o b(i[4]), i[1] \o b(Unique(i[4])), i[1] \o b(Sorted(i[4]))>>
    [] o = "cut" -> <<[k \in 1..Len(Keep(i[3], LAMBDA p : Len(p) >= i[1])) |-> Slice(Keep(i[3], LAMBDA p : Len(p) >= i[1])[k], i[1], i[2])],
                      [k \in 1..Len(i[3]) |-> IF Len(i[3][k]) >= i[1] THEN Slice(i[3][k], i[1], i[2]) ELSE i[3][k]]>>
    [] o = "translate" -> IF Len(i[1]) # Len(i[2]) THEN <<0, <<>>>> ELSE <<1, LET t == Table(i[1], i[2]) IN [k \in 1..Len(i[3]) |-> t[i[3][k]]]>>
    [] o = "weave" -> <<Woven(i[3], i[1], i[2]), Len(Woven(i[3], i[1], i[2]))>>
    [] o = "build" -> <<Cat(i[1])>>
    \* parts that repeat n times; what joins them after the last part too
    [] o = "join_bulk" -> <<Packed(Cat([k \in 1..Len(i[3]) |-> i[3][k] \o i[2]]), i[4]), i[1] \o Join(i[2], Unique(i[3])), Len(i[1]) + i[4] * Len(Cat([k \in 1..Len(i[3]) |-> i[3][k] \o i[2]])) - Len(i[2])>>
    [] o = "join_if_bulk" -> LET c == Chosen(i[4], i[5], i[3]) IN <<Packed(Cat([k \in 1..Len(c) |-> c[k] \o i[2]]), i[6]), i[1] \o Join(i[2], Unique(c)), Len(i[1]) + (IF c = <<>> THEN 0 ELSE i[6] * Len(Cat([k \in 1..Len(c) |-> c[k] \o i[2]])) - Len(i[2]))>>
    [] o = "replicate_bulk" -> <<Packed(i[2], i[1]), Packed(i[2], i[1]), Packed(i[2], i[1] + 1)>>
    [] o = "bracketize_bulk" -> LET b(ps) == Cat([k \in 1..Len(ps) |-> i[2] \o ps[k] \o i[3]]) IN <<Packed(b(i[4]), i[5]), i[1] \o b(Unique(i[4])), Len(i[1]) + i[5] * Len(b(i[4]))>>
    \* the interval divides the piece
    [] o = "weave_bulk" -> <<Packed(Woven(i[3], i[1], i[2]), i[4]), i[4] * Len(Woven(i[3], i[1], i[2]))>>
    [] o = "weave_far" -> LET m == i[3] \div i[1] IN <<[k \in 1..m |-> k * (i[1] + 1) - 1], i[3] + m, i[3] + m>>
    [] o = "build_bulk" -> <<Packed(Cat(i[1]), i[2])>>
    [] o = "construct_bulk" -> <<PackedThen(i[3], i[4], i[2] \o <<49, 50, 51, 52, 53>>)>>
BuildConforms(o, i, r) == r = BuildExpected(o, i)
=============================================================================
