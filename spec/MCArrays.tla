------------------------------ MODULE MCArrays ------------------------------
(* Comparison as the code may do it, block by block (8, 4, 2, 1 bytes), and  *)
(* the writers as machines that touch one cell per step.                     *)
EXTENDS Arrays, Json
CONSTANTS MaxN, MaxCells, MaxText
VARIABLES job, n, diff, pos, eq, cells, src, pad, from, to, st
vars == <<job, n, diff, pos, eq, cells, src, pad, from, to, st>>
A == [k \in 1..n |-> 16 + k]
Other == [k \in 1..n |-> IF k \in diff THEN 144 + k ELSE 16 + k]
Text(k) == [j \in 1..k |-> 96 + j]
Init == /\ pos = 0 /\ eq = TRUE /\ st = "run"
        /\ \/ /\ job = "cmp" /\ n \in 1..MaxN /\ diff \in { d \in SUBSET (1..MaxN) : Cardinality(d) <= 2 /\ \A x \in d : x <= n }
              /\ cells = <<>> /\ src = <<>> /\ pad = 0 /\ from = 0 /\ to = 0
           \/ /\ job = "set" /\ n \in 1..MaxCells /\ diff = {} /\ cells = Fresh(n) /\ \E k \in 0..(MaxCells + 1) : src = Text(k)
              /\ pad \in {0, 1} /\ from = 0 /\ to = 0
           \/ /\ job = "turn" /\ n = 0 /\ diff = {} /\ \E k \in 0..MaxText : src = Text(k) /\ from \in 0..k /\ to \in from..k
              /\ cells = src /\ pad = 0
Block(left) == IF left >= 8 THEN 8 ELSE IF left >= 4 THEN 4 ELSE IF left >= 2 THEN 2 ELSE 1
Compare == /\ job = "cmp" /\ st = "run" /\ pos < n /\ eq
           /\ LET w == Block(n - pos) IN eq' = (SubSeq(A, pos + 1, pos + w) = SubSeq(Other, pos + 1, pos + w)) /\ pos' = pos + w
           /\ UNCHANGED <<job, n, diff, cells, src, pad, from, to, st>>
Write == /\ job = "set" /\ st = "run" /\ Len(src) <= n /\ pos < (IF pad = 1 THEN n ELSE Len(src))
         /\ cells' = [cells EXCEPT ![pos + 1] = IF pos < Len(src) THEN src[pos + 1] ELSE 48] /\ pos' = pos + 1
         /\ UNCHANGED <<job, n, diff, eq, src, pad, from, to, st>>
Swap == /\ job = "turn" /\ st = "run" /\ from + pos < to - 1 - pos
        /\ cells' = [cells EXCEPT ![from + pos + 1] = cells[to - pos], ![to - pos] = cells[from + pos + 1]] /\ pos' = pos + 1
        /\ UNCHANGED <<job, n, diff, eq, src, pad, from, to, st>>
Emit(o, in) == PrintT(ToJson([o |-> o, i |-> in, r |-> ArraysExpected(o, in)]))
Stop == /\ st = "run" /\ ~ENABLED Compare /\ ~ENABLED Write /\ ~ENABLED Swap /\ st' = "done"
        /\ UNCHANGED <<job, n, diff, pos, eq, cells, src, pad, from, to>>
        /\ CASE job = "cmp" -> Emit("same", <<A, Other>>)
             [] job = "set" -> /\ Emit("setarray", <<n, src, pad, 48>>)
                               /\ (pad = 0 => Emit("cleararray", <<n, Len(src), 7>>) /\ Emit("makestring", <<Text(n), Len(src)>>))
             [] OTHER -> Emit("inplace", <<src, from, to, 42>>) /\ (from = 0 /\ to = Len(src) => Emit("ends", <<src>>))
Next == Compare \/ Write \/ Swap \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
CmpRight == (job = "cmp" /\ st = "done") => B2N(eq) = ArraysExpected("same", <<A, Other>>)[1]
NoOverrun == job = "cmp" => pos <= n
SetRight == (job = "set" /\ st = "done") => <<B2N(Len(src) <= n), cells>> = SetArray(n, src, pad, 48)
TurnRight == (job = "turn" /\ st = "done") => cells = Reversed(src, from, to)
\* reversing twice is nothing, and what lies outside never changes
TwiceSame == job = "turn" => Reversed(Reversed(src, from, to), from, to) = src
Outside == job = "turn" => SubSeq(cells, 1, from) = SubSeq(src, 1, from) /\ SubSeq(cells, to + 1, Len(src)) = SubSeq(src, to + 1, Len(src))
Ends == <>(st = "done")
=============================================================================
