------------------------------ MODULE MCParse -------------------------------
(* The parser as a machine: scan the next field, convert it into the next    *)
(* cell, stop on the first failure; a trailing container takes the rest.     *)
EXTENDS Parse, Json
CONSTANTS Alphabet, MaxLen, MaxVars, Modes
Delims == {44, 32}
VARIABLES mode, s, k, pos, cells, tail, st
vars == <<mode, s, k, pos, cells, tail, st>>
\* st: "run", "ok", "fail"
Init == /\ mode \in Modes /\ s \in SeqsUpTo(Alphabet, MaxLen) /\ k \in 1..MaxVars
        /\ pos = 1 /\ cells = <<>> /\ tail = <<>> /\ st = "run"
ts == Toks(s, Delims, 1)
Short == Len(ts) < (IF mode = "tail" THEN k + 1 ELSE k)
Refuse == st = "run" /\ Short /\ mode # "cont" /\ st' = "fail" /\ UNCHANGED <<mode, s, k, pos, cells, tail>>
Cell == /\ st = "run" /\ ~Short /\ mode # "cont" /\ pos <= k
        /\ LET v == Conv(TypeOf(pos), ts[pos]) IN
           IF v[1] = 1 THEN cells' = Append(cells, v[2]) /\ pos' = pos + 1 /\ st' = (IF pos = k /\ mode = "parse" THEN "ok" ELSE "run")
           ELSE st' = "fail" /\ UNCHANGED <<cells, pos>>
        /\ UNCHANGED <<mode, s, k, tail>>
Feed == /\ st = "run" /\ ((mode = "tail" /\ ~Short /\ pos > k) \/ mode = "cont")
        /\ IF pos > Len(ts) THEN st' = "ok" /\ UNCHANGED <<tail, pos>>
           ELSE LET v == IntConv(ts[pos], 2) IN
                IF v[1] = 1 THEN tail' = Append(tail, v[2]) /\ pos' = pos + 1 /\ st' = st
                ELSE IF mode = "cont" THEN pos' = pos + 1 /\ UNCHANGED <<tail, st>>
                ELSE st' = "fail" /\ UNCHANGED <<tail, pos>>
        /\ UNCHANGED <<mode, s, k, cells>>
Emit(o, in) == PrintT(ToJson([o |-> o, i |-> in, r |-> ParseExpected(o, in)]))
Done == /\ st \in {"ok", "fail"} /\ st' = st \o "." /\ UNCHANGED <<mode, s, k, pos, cells, tail>>
        /\ CASE mode = "parse" -> Emit("parse", <<s, <<44, 32>>, k>>)
             [] mode = "tail" -> \A kd \in {"seq", "set", "mset"} : Emit("parse_tail", <<s, <<44, 32>>, k, kd>>)
             [] OTHER -> \A n \in -1..k : Emit("cont", <<s, <<44, 32>>, 1, n, "i">>)
Next == Refuse \/ Cell \/ Feed \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ended == st \in {"ok.", "fail."}
Pad(c) == [j \in 1..k |-> IF j <= Len(c) THEN c[j] ELSE Kept]
ParseRight == (Ended /\ mode = "parse") => ParseExpected("parse", <<s, <<44, 32>>, k>>) = <<<<B2N(st = "ok."), Pad(cells)>>>>
TailRight == (Ended /\ mode = "tail") => ParseExpected("parse_tail", <<s, <<44, 32>>, k, "seq">>) = <<<<B2N(st = "ok."), Pad(cells), Old("i") \o tail>>>>
ContRight == (Ended /\ mode = "cont") => ParseExpected("cont", <<s, <<44, 32>>, 1, -1, "i">>)[1][2] = Old("i") \o tail
\* success exactly when there are enough fields and each converts
Exact == (Ended /\ mode = "parse") => ((st = "ok.") <=> (Len(ts) >= k /\ \A j \in 1..k : Conv(TypeOf(j), ts[j])[1] = 1))
InOrder == \A j \in 1..Len(cells) : cells[j] = Conv(TypeOf(j), ts[j])[2]
Terminates == <>Ended
=============================================================================
