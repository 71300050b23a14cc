------------------------------ MODULE MCSearch ------------------------------
(* The wildcard matcher as a machine that tracks the set of live pattern     *)
(* positions, one data element per step, against the recursive definition;   *)
(* and the searcher as a machine that slides over the text.                  *)
EXTENDS Search, Json
CONSTANTS PAlpha, SAlpha, PLen, SLen, Modes
VARIABLES mode, p, s, q, S, occ, fin
vars == <<mode, p, s, q, S, occ, fin>>
Init == /\ mode \in Modes /\ p \in SeqsUpTo(PAlpha, PLen) /\ s \in SeqsUpTo(SAlpha, SLen)
        /\ q = 0 /\ occ = <<>> /\ fin = FALSE /\ S = Eps(p, {0}, 42, 63)
Eat == /\ mode = "match" /\ ~fin /\ q < Len(s) /\ S # {}
       /\ S' = Eps(p, Delta(p, S, s[q + 1], 42, 63), 42, 63) /\ q' = q + 1 /\ UNCHANGED <<mode, p, s, occ, fin>>
Slide == /\ mode = "find" /\ ~fin /\ p # <<>> /\ q + Len(p) <= Len(s)
         /\ IF OccursAt(p, s, q) THEN occ' = Append(occ, q) /\ q' = q + Len(p) ELSE occ' = occ /\ q' = q + 1
         /\ UNCHANGED <<mode, p, s, S, fin>>
Emit(o, in) == PrintT(ToJson([o |-> o, i |-> in, r |-> SearchExpected(o, in)]))
Finish == /\ ~fin /\ ~ENABLED Eat /\ ~ENABLED Slide /\ fin' = TRUE
          /\ UNCHANGED <<mode, p, s, q, S, occ>>
          /\ IF mode = "match" THEN Emit("match", <<p, s>>)
             ELSE (p # <<>> => Emit("condition", <<p, s>>)) /\ Emit("find", <<p, s>>) /\ Emit("imatch", <<p, s>>) /\ Emit("replace", <<s, p, <<>>>>) /\ Emit("replace", <<s, p, <<120>>>>) /\ Emit("replace", <<s, p, p \o <<97>>>>)
Next == Eat \/ Slide \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
MatchRight == (fin /\ mode = "match") => ((q = Len(s) /\ Len(p) \in S) <=> Matches(p, s, 42, 63))
FindRight == (fin /\ mode = "find") => occ = Occ(p, s)
\* occurrences are disjoint, real, and no occurrence fits in a gap between them
OccSound == (fin /\ mode = "find" /\ p # <<>>) =>
              /\ \A k \in 1..Len(occ) : OccursAt(p, s, occ[k]) /\ (k > 1 => occ[k - 1] + Len(p) <= occ[k])
              /\ \A k \in 0..Len(s) : OccursAt(p, s, k) => \E j \in 1..Len(occ) : occ[j] <= k /\ k < occ[j] + Len(p)
SizeRight == (fin /\ mode = "find") => Len(Replace(s, p, <<120>>)) = Len(s) + Len(occ) * (1 - Len(p))
IdentityReplace == (fin /\ mode = "find") => Replace(s, p, p) = s
Terminates == <>fin
=============================================================================
