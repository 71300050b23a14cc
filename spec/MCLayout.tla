----------------------------- MODULE MCLayout -------------------------------
(* All histories of layout steps over small texts.                          *)
EXTENDS Layout, Json
CONSTANTS TextBytes, MaxText, MaxSteps, MaxPos
VARIABLES start, steps, text, was
vars == <<start, steps, text, was>>
Pads == {45, 97}
Menu == { <<w, a, b>> : w \in {"center", "right", "left"}, a \in 0..(MaxPos + 1), b \in Pads }
        \cup { <<"rest", a, b>> : a \in 0..MaxPos, b \in 0..1 } \cup { <<"swap", a, b>> : a, b \in 0..MaxPos }
        \cup { <<"remove", a, 0>> : a \in 0..MaxPos } \cup { <<"insert", a, 122>> : a \in 0..MaxPos }
        \cup { <<w, 0, 0>> : w \in {"upper", "lower", "print"} }
Init == start \in SeqsUpTo(TextBytes, MaxText) /\ steps = <<>> /\ text = start /\ was = start
Next == /\ Len(steps) < MaxSteps
        /\ \E m \in Menu : steps' = Append(steps, m) /\ text' = Step(m[1], m[2], m[3], text)
        /\ was' = text /\ UNCHANGED start
Spec == Init /\ [][Next]_vars
LastStep == IF steps = <<>> THEN <<"none", 0, 0>> ELSE steps[Len(steps)]
Count(s, c) == Cardinality({ k \in 1..Len(s) : s[k] = c })
Occurs(p, s) == \E k \in 0..Len(s) : OccursAt(p, s, k)
\* what each step may do to the text, stated independently of how it is computed
Padding == LastStep[1] \in {"center", "left", "right"} =>
             /\ Occurs(was, text) /\ Len(text) = Max2(Len(was), LastStep[2])
             /\ (LastStep[1] = "left" => StartsWith(was, text)) /\ (LastStep[1] = "right" => EndsWith(was, text))
             /\ (LastStep[1] = "center" => \E l \in 0..Len(text) : OccursAt(was, text, l) /\ (Len(text) - Len(was) - l) \in {l, l + 1})
Swapping == LastStep[1] = "swap" => /\ Len(text) = Len(was) /\ \A c \in ToSetOf(was) \cup ToSetOf(text) : Count(was, c) = Count(text, c)
                                /\ Step("swap", LastStep[2], LastStep[3], text) = was
InsRem == /\ (LastStep[1] = "insert" /\ LastStep[2] <= Len(was)) => (Without(text, LastStep[2]) = was /\ text[LastStep[2] + 1] = LastStep[3])
          /\ (LastStep[1] = "remove" /\ LastStep[2] < Len(was)) => With(text, LastStep[2], was[LastStep[2] + 1]) = was
Taking == LastStep[1] = "rest" => EndsWith(text, was)
Converting == LastStep[1] \in {"upper", "lower", "print"} => /\ Len(text) = Len(was) /\ Step(LastStep[1], 0, 0, text) = text
                 /\ (LastStep[1] = "print" => \A k \in 1..Len(text) : text[k] \in 33..126)
Untouched == (LastStep[1] \in {"swap", "remove", "rest", "insert"} /\ LastStep[2] > Len(was)) => (text = was \/ text = <<>>)
Agrees == steps # <<>> => Run(start, steps)[Len(steps)] = text
Out == (Len(steps) = MaxSteps) => LET i == <<start, steps>> IN PrintT(ToJson([o |-> "layout", i |-> i, r |-> LayoutExpected("layout", i)]))
=============================================================================
