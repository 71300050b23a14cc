------------------------------ MODULE MCRandom ------------------------------
(* Selection by drawing, with the generator left free: drawing without      *)
(* replacement, and one pass over a list of unknown length.                 *)
EXTENDS Random, Json
CONSTANTS MaxN
VARIABLES what, n, k, left, out, at, done
vars == <<what, n, k, left, out, at, done>>
Init == /\ n \in 0..MaxN /\ done = FALSE
        /\ \/ what = "perm" /\ k = n /\ left = First(n) /\ out = <<>> /\ at = 1
           \/ what = "comb" /\ k \in 0..(MaxN + 1) /\ left = First(n) /\ out = <<>> /\ at = 1
           \/ what = "kpick" /\ k \in 0..MaxN /\ left = <<>> /\ out = First(Min2(n, k)) /\ at = Min2(n, k) + 1
           \/ what = "onepick" /\ k = 1 /\ left = <<>> /\ out = <<>> /\ at = 1
Draw == /\ what \in {"perm", "comb"} /\ ~done
        /\ IF Len(out) = k \/ k > n THEN done' = TRUE /\ UNCHANGED <<left, out>>
           ELSE \E j \in 1..Len(left) : out' = Append(out, left[j]) /\ left' = SubSeq(left, 1, j - 1) \o SubSeq(left, j + 1, Len(left)) /\ UNCHANGED done
        /\ UNCHANGED <<what, n, k, at>>
Walk == /\ what \in {"kpick", "onepick"} /\ ~done
        /\ IF at > n \/ k = 0 THEN done' = TRUE /\ UNCHANGED <<out, at>>
           ELSE /\ at' = at + 1 /\ UNCHANGED done
                /\ IF what = "onepick" THEN out' = <<at>> \/ (out # <<>> /\ out' = out)
                   ELSE out' = out \/ \E j \in 1..Len(out) : out' = [out EXCEPT ![j] = at]
        /\ UNCHANGED <<what, n, k, left>>
Next == Draw \/ Walk
Spec == Init /\ [][Next]_vars
Valid == /\ From(out, First(n)) /\ From(left, First(n))
         /\ what \in {"perm", "comb"} => Shuffle(out \o left, First(n))
Reached == done => out \in Possible(what, n, k)
Size == done => Len(out) = CASE what = "perm" -> n [] what = "comb" -> IF k > n THEN 0 ELSE k [] what = "kpick" -> Min2(k, n) [] what = "onepick" -> Min2(1, n)
Out == (done /\ out = SetToSortSeq(Possible(what, n, k), LexLT)[1]) => PrintT(ToJson([o |-> "script", i |-> <<what, n, k>>, r |-> RandomExpected("script", <<what, n, k>>)]))
=============================================================================
