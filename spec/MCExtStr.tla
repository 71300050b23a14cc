----------------------------- MODULE MCExtStr -------------------------------
(* All histories of modifying steps on one object and a copy made part way. *)
EXTENDS ExtStr, Json
CONSTANTS TextBytes, MaxStart, MaxSteps
VARIABLES start, steps, s, was, copy
vars == <<start, steps, s, was, copy>>
Small == { <<97>>, <<66, 97>>, <<32, 66>>, <<>> }
Menu == { <<w, <<>>, <<>>, 0>> : w \in {"lower", "upper"} } \cup { <<w, a, <<>>, 0>> : w \in {"lead", "trail", "minus", "append", "assign"}, a \in Small }
        \cup { <<"times", <<>>, <<>>, n>> : n \in 0..2 } \cup { <<"replace", a, b, 0>> : a, b \in Small }
Init == start \in SeqsUpTo(TextBytes, MaxStart) /\ steps = <<>> /\ s = start /\ was = start /\ copy = start
Next == /\ Len(steps) < MaxSteps
        /\ \E m \in Menu : steps' = Append(steps, m) /\ s' = Change(m[1], m[2], m[3], m[4], s)
        /\ was' = s /\ UNCHANGED <<start, copy>>
Spec == Init /\ [][Next]_vars
Done == IF steps = <<>> THEN <<"none", <<>>, <<>>, 0>> ELSE steps[Len(steps)]
Has1(p, t) == \E k \in 0..Len(t) : OccursAt(p, t, k)
Trims == /\ Done[1] = "lead" => (EndsWith(s, was) /\ (s = <<>> \/ s[1] \notin ToSetOf(Done[2])) /\ \A k \in 1..(Len(was) - Len(s)) : was[k] \in ToSetOf(Done[2]))
         /\ Done[1] = "trail" => (StartsWith(s, was) /\ (s = <<>> \/ s[Len(s)] \notin ToSetOf(Done[2])) /\ \A k \in (Len(s) + 1)..Len(was) : was[k] \in ToSetOf(Done[2]))
Cases == Done[1] \in {"lower", "upper"} => (Len(s) = Len(was) /\ LowerS(s) = LowerS(was) /\ Change(Done[1], <<>>, <<>>, 0, s) = s)
Times == Done[1] = "times" => /\ Len(s) = Done[4] * Len(was) /\ \A k \in 1..Len(s) : s[k] = was[((k - 1) % Len(was)) + 1]
Minus1 == (Done[1] = "minus" /\ Len(Done[2]) = 1) => ~Has1(Done[2], s)
SameIsSame == (Done[1] = "replace" /\ Done[2] = Done[3]) => s = was
NoHit == (Done[1] \in {"replace", "minus"} /\ (Done[2] = <<>> \/ ~Has1(Done[2], was))) => s = was
Agrees == steps # <<>> => Run(start, steps)[Len(steps)] = s
Out == (Len(steps) = MaxSteps) => LET i == <<start, steps>> IN PrintT(ToJson([o |-> "steps", i |-> i, r |-> ExtStrExpected("steps", i)]))
OutAsk == steps = <<>> => \A x \in {<<>>, <<97>>, <<65, 66>>} : \A D \in {<<32>>, <<97, 32>>} : \A opt \in {0, 1} :
            LET i == <<s, x, D, opt, 2>> IN PrintT(ToJson([o |-> "ask", i |-> i, r |-> ExtStrExpected("ask", i)]))
=============================================================================
