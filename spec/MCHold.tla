------------------------------- MODULE MCHold -------------------------------
(* The three holder machines explored in all orders of their operations.    *)
EXTENDS Hold, Json
CONSTANTS Kind, MaxSteps
VARIABLES steps, attr, hand, scope, undo
vars == <<steps, attr, hand, scope, undo>>
Texts == { <<55>>, <<56>>, <<120>> }
AttrMenu == { <<w, t>> : w \in {"set", "write", "back", "make"}, t \in {<<55>>, <<48, 56>>} } \cup { <<"parse", t>> : t \in Texts } \cup { <<"forget", <<55>>>>, <<"copy", <<48>>>> }
HandMenu == { <<"bind", h, k, <<>>>> : h \in 1..2, k \in 1..3 } \cup { <<w, h, k, <<>>>> : w \in {"copy", "assign"}, h \in 1..3, k \in 1..2 } \cup { <<"parse", h, 1, t>> : h \in 1..3, t \in {<<55>>, <<120>>} }
ScopeMenu == { <<w, n>> : w \in {"open", "switch"}, n \in 0..1 } \cup { <<"write", n>> : n \in 5..6 } \cup { <<"close", 0>> }
Init == steps = <<>> /\ attr = AttrNew("i") /\ hand = HandNew /\ scope = <<4, <<>>>> /\ undo = <<>>
Attr == Kind = "attr" /\ \E m \in AttrMenu : steps' = Append(steps, m) /\ attr' = AttrStep("i", attr, m[1], m[2]) /\ UNCHANGED <<hand, scope, undo>>
Hand == Kind = "handles" /\ \E m \in HandMenu : (m[1] \in {"copy", "assign"} => m[2] # m[3])
                                             /\ (m[1] = "assign" => hand.b[m[3]] # 0)
                                             /\ steps' = Append(steps, m) /\ hand' = HandStep(hand, m[1], m[2], m[3], m[4]) /\ UNCHANGED <<attr, scope, undo>>
\* undo: for every open scope, the value at entry
Scope == Kind = "scopes" /\ \E m \in ScopeMenu : (m[1] \in {"switch", "close"} => scope[2] # <<>>)
                                              /\ steps' = Append(steps, m) /\ scope' = ScopeStep(scope, m[1], m[2])
                                              /\ undo' = (IF m[1] = "open" THEN Append(undo, scope[1]) ELSE IF m[1] = "close" THEN SubSeq(undo, 1, Len(undo) - 1) ELSE undo)
                                              /\ UNCHANGED <<attr, hand>>
Next == Len(steps) < MaxSteps /\ (Attr \/ Hand \/ Scope)
Spec == Init /\ [][Next]_vars
Final == steps[Len(steps)]
AttrRight == (Kind = "attr" /\ steps # <<>>) =>
   /\ Final[1] = "make" => attr[2] = attr[3]
   /\ Final[1] \in {"set", "make"} => attr[1] = 1 /\ attr[2] = Canonic("i", Final[2])
   /\ (\A k \in 1..Len(steps) : steps[k][1] \notin {"set", "make"} /\ (steps[k][1] = "parse" => ~Fits("i", steps[k][2]))) => attr[1] = 0
\* after two assignments in a row the previous value is the first one
SetSet == (Kind = "attr" /\ Len(steps) >= 2 /\ Final[1] = "set" /\ steps[Len(steps) - 1][1] = "set") => attr[3] = Canonic("i", steps[Len(steps) - 1][2])
HandRight == (Kind = "handles" /\ steps # <<>>) =>
   /\ Final[1] = "parse" => (hand.ok = 1 <=> (hand.b[Final[2]] # 0 /\ VarConv(hand.b[Final[2]], Final[4])[1] = 1))
   /\ \A v \in 1..4 : (hand.x[v] # HandNew.x[v]) => \E k \in 1..Len(steps) : steps[k][1] = "parse"
   /\ \A h \in 1..3 : hand.b[h] # 0 => \E k \in 1..Len(steps) : steps[k][1] = "bind" /\ steps[k][3] = hand.b[h]
ScopeRight == (Kind = "scopes") => (Len(undo) = Len(scope[2]) /\ (\A k \in 1..Len(undo) : scope[2][k][2] = undo[k]))
ScopeNone == (Kind = "scopes" /\ steps # <<>> /\ (\A k \in 1..Len(steps) : steps[k] # <<"open", 0>> /\ steps[k] # <<"switch", 0>>) /\ scope[2] # <<>>) => ScopeRun(scope, <<>>)[Len(ScopeRun(scope, <<>>))] = undo[1]
Out == (Len(steps) = MaxSteps) => LET i == CASE Kind = "attr" -> <<"i", steps>> [] Kind = "handles" -> <<steps>> [] OTHER -> <<4, steps>> IN PrintT(ToJson([o |-> Kind, i |-> i, r |-> HoldExpected(Kind, i)]))
=============================================================================
