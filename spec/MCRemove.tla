------------------------------ MODULE MCRemove ------------------------------
(* Removal as a compacting pass: a read head, a write head and the rule's    *)
(* memory (previous element, elements seen, elements whose fate depends on   *)
(* what follows).  Checked against the definition of what the rule names.    *)
EXTENDS Remove, Json
CONSTANTS Alphabet, MaxLen, Preds
VARIABLES s, rule, D, x, q, out, pend, prev, seen, started, gone, fin
vars == <<s, rule, D, x, q, out, pend, prev, seen, started, gone, fin>>
Init == /\ s \in SeqsUpTo(Alphabet, MaxLen) /\ rule \in Rules
        /\ D \in (IF rule \in {"conse", "dups", "index"} THEN {{}} ELSE Preds)
        /\ x \in (IF rule = "index" THEN SUBSET (0..Len(s)) ELSE {{}})
        /\ q = 0 /\ out = <<>> /\ pend = <<>> /\ prev = -1 /\ seen = {} /\ started = FALSE /\ gone = 0 /\ fin = FALSE
c == s[q + 1]
Drop == gone' = gone + 1 /\ UNCHANGED <<out, pend>>
Take == out' = (out \o pend) \o <<c>> /\ pend' = <<>> /\ gone' = gone
Hold == pend' = Append(pend, c) /\ UNCHANGED <<out, gone>>
Step == /\ ~fin /\ q < Len(s) /\ q' = q + 1
        /\ CASE rule = "pred"  -> IF c \in D THEN Drop ELSE Take
             [] rule = "lead"  -> IF c \in D /\ ~started THEN Drop ELSE Take
             [] rule = "trail" -> IF c \in D THEN Hold ELSE Take
             [] rule = "both"  -> IF c \in D THEN (IF started THEN Hold ELSE Drop) ELSE Take
             [] rule = "consp" -> IF c \in D /\ prev \in D THEN Drop ELSE Take
             [] rule = "conse" -> IF c = prev THEN Drop ELSE Take
             [] rule = "dups"  -> IF c \in seen THEN Drop ELSE Take
             [] rule = "index" -> IF q \in x THEN Drop ELSE Take
        /\ prev' = c /\ seen' = seen \cup {c} /\ started' = (started \/ c \notin D)
        /\ UNCHANGED <<s, rule, D, x, fin>>
Finish == /\ ~fin /\ q = Len(s) /\ fin' = TRUE /\ gone' = gone + Len(pend) /\ pend' = <<>>
          /\ UNCHANGED <<s, rule, D, x, q, out, prev, seen, started>>
          /\ LET in == <<rule, s, SetToSortSeq(D, <), SetToSortSeq(x, <)>> IN PrintT(ToJson([o |-> "rm", i |-> in, r |-> RemoveExpected("rm", in)]))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
WriteBehindRead == Len(out) + Len(pend) + gone = q
Right == fin => <<out, gone>> = Outcome(rule, s, D, x)
\* nothing the rule spares is lost: the result is a subsequence and every element outside it is named
Order == fin => \A a, b \in 1..Len(KeptIdx(rule, s, D, x)) : a < b => KeptIdx(rule, s, D, x)[a] < KeptIdx(rule, s, D, x)[b]
Idempotent == fin /\ rule # "index" => Outcome(rule, out, D, x) = <<out, 0>>
Terminates == <>fin
=============================================================================
