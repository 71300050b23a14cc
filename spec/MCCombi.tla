------------------------------ MODULE MCCombi ------------------------------
(* Enumerations as cursors that move to the successor: everything is        *)
(* visited once, in order, and the n-th arrangement is where the cursor is  *)
(* after n moves.                                                           *)
EXTENDS Combi, Json
CONSTANTS MaxN, Values, MaxItems
VARIABLES what, items, k, cur, n, seen, ended
vars == <<what, items, k, cur, n, seen, ended>>
Lists == UNION { [1..m -> Values] : m \in 0..MaxItems }
Init == /\ n = 0 /\ seen = {} /\ ended = FALSE
        /\ \/ what = "comb" /\ (\E m \in 0..MaxN : items = Idx(m)) /\ k \in 0..Len(items) /\ cur = Idx(k)
           \/ what = "perm" /\ (\E m \in 0..(MaxN - 1) : items = Idx(m)) /\ k = 0 /\ cur = items
           \/ what = "mcomb" /\ items \in Lists /\ k \in 0..Len(items) /\ cur = SubSeq(Ordered(items), 1, k)
           \/ what = "mperm" /\ items \in Lists /\ k = 0 /\ cur = items
\* successor of a combination: raise the last index that can be raised, reset those after it
NextC(c, m) == LET j == { x \in 1..Len(c) : c[x] < m - Len(c) + (x - 1) } IN
               IF j = {} THEN <<>> ELSE LET p == Max(j) IN [x \in 1..Len(c) |-> IF x < p THEN c[x] ELSE c[p] + 1 + (x - p)]
\* successor of a selection from a sorted list with repetitions: the least greater one
NextM(c) == LET g == { x \in ToSetOf(AllOf(Ordered(items), k)) : LexLT(c, x) } IN
            IF g = {} THEN <<>> ELSE CHOOSE x \in g : \A y \in g : y = x \/ LexLT(x, y)
Succ(c) == CASE what = "comb" -> NextC(c, Len(items)) [] what = "mcomb" -> NextM(c) [] what \in {"perm", "mperm"} -> NextP(c)
Next == /\ ~ended /\ seen' = seen \cup {cur} /\ n' = n + 1 /\ UNCHANGED <<what, items, k>>
        /\ LET s == Succ(cur) IN IF s = <<>> THEN ended' = TRUE /\ cur' = cur ELSE ended' = FALSE /\ cur' = s
Spec == Init /\ [][Next]_vars
\* (that it ends follows: nothing is visited twice)
NeverTwice == ~ended => cur \notin seen
InOrder == \A x \in seen : x = cur \/ LexLT(x, cur)
Nth == ~ended => CASE what = "comb" -> cur = NthC(n, 0, Len(items), k) /\ cur = NthCBig(Digs(n), 0, Len(items), k)
                           [] what = "perm" -> cur = NthP(n, items) /\ cur = At(items, NthPBig(Digs(n), Len(items))) [] OTHER -> TRUE
Subsets == { SetToSortSeq(c, LAMBDA a, b : a < b) : c \in { x \in SUBSET ToSetOf(items) : Cardinality(x) = k } }
Everything == ended =>
  CASE what = "comb" -> seen = Subsets /\ n = Pick(Len(items), k) /\ (Text(ChooseBig(Len(items), k)) = Text(Digs(n)))
    [] what = "perm" -> seen = { p \in [1..Len(items) -> ToSetOf(items)] : ToSetOf(p) = ToSetOf(items) } /\ n = Fact(Len(items))
    [] what = "mcomb" -> seen = ToSetOf(AllOf(Ordered(items), k)) /\ n = Len(Distinct(items, k))
    [] what = "mperm" -> n = Len(From(items)) /\ n = Cardinality(seen)
Emit(o, i) == PrintT(ToJson([o |-> o, i |-> i, r |-> CombiExpected(o, i)]))
Out == /\ (what = "comb" /\ ~ended) => /\ Emit("nthc", <<n, Len(items), k>>)
                                        /\ Emit("fcomb", <<[x \in 1..Len(items) |-> x], k, n>>)
       /\ (what = "comb" /\ ended) => /\ Emit("fcomb", <<[x \in 1..Len(items) |-> Len(items) - x], k, 0>>) /\ Emit("choose", << << <<Len(items), k>> >> >>)
       /\ (what = "perm" /\ ~ended) => Emit("nthp", <<n, [x \in 1..Len(items) |-> 97 + x]>>) /\ ((n < 5 \/ n % 173 = 7) => Emit("fperm", <<items, n>>))
       /\ (what = "mcomb" /\ ended /\ items # <<>>) => Emit("ncomb", <<items, k, 0>>) /\ Emit("citer", <<items, k, 1>>) /\ Emit("fcomb", <<items, k, 0>>)
       /\ (what = "mperm" /\ ended) => Emit("fperm", <<items, 0>>)
=============================================================================
