------------------------------ MODULE MCBuild ------------------------------
(* Joining element by element, with or without a condition, and reading the *)
(* joined text back by splitting it.                                        *)
EXTENDS Build, Json
SP == INSTANCE Split
CONSTANTS PartBytes, MaxPart, MaxParts, Delims, Conds
VARIABLES d, cond, parts, text, kept, first
vars == <<d, cond, parts, text, kept, first>>
QDelims == { <<>>, <<44>>, <<59>>, <<44, 98>> }
QConds == { <<"gt", 0>>, <<"lt", 2>>, <<"eq", 1>>, <<"even", 0>>, <<"odd", 0>> }
Parts == SeqsUpTo(PartBytes, MaxPart)
Init == d \in Delims /\ cond \in Conds /\ parts = <<>> /\ text = <<33>> /\ kept = <<>> /\ first = TRUE
\* one more element
Next == /\ Len(parts) < MaxParts
        /\ \E p \in Parts : /\ parts' = Append(parts, p)
                            /\ IF Wants(cond[1], cond[2], p)
                               THEN text' = text \o (IF first THEN <<>> ELSE d) \o p /\ first' = FALSE /\ kept' = Append(kept, p)
                               ELSE UNCHANGED <<text, first, kept>>
        /\ UNCHANGED <<d, cond>>
Spec == Init /\ [][Next]_vars
IsJoin == text = <<33>> \o Join(d, Chosen(cond[1], cond[2], parts)) /\ kept = Chosen(cond[1], cond[2], parts)
LengthAdds == Len(text) = 1 + FoldLeft(LAMBDA a, p : a + Len(p), 0, kept) + (IF kept = <<>> THEN 0 ELSE (Len(kept) - 1) * Len(d))
\* splitting by the delimiter gives the parts back
Readable == (Len(d) = 1 /\ kept # <<>> /\ (kept # <<(<<>>)>>) /\ (\A k \in 1..Len(kept) : d[1] \notin ToSetOf(kept[k]))) =>
              SP!Texts(Tail(text), SP!Tokens(Tail(text), {d[1]}, 0)) = kept
Out == LET i == <<<<33>>, d, parts, cond[1], cond[2]>> IN
       PrintT(ToJson([o |-> "join_if", i |-> i, r |-> BuildExpected("join_if", i)]))
OutJoin == (cond[1] = "gt") => PrintT(ToJson([o |-> "join", i |-> <<<<33>>, d, parts>>, r |-> BuildExpected("join", <<<<33>>, d, parts>>)]))
=============================================================================
