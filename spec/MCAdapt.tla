------------------------------ MODULE MCAdapt -------------------------------
(* A row of adaptors fed field by field: the row is abandoned at the first   *)
(* rejected field.  Also every single adaptor on every short field.          *)
EXTENDS Adapt, Json
CONSTANTS Alphabet, MaxLen, PipeLen
VARIABLES mode, ads, fs, k, stored, st
vars == <<mode, ads, fs, k, stored, st>>
Ads == { <<"expect", <<97>>>>, <<"iexpect", <<65, 49>>>>, <<"like", <<97, 42>>>>, <<"like", <<63, 49>>>>, <<"rangei", -1, 10>>, <<"ranges", <<49>>, <<97>>>>,
         <<"ranged", -4, 5>>, <<"trims", 0, <<32>>>>, <<"trims", 1, <<32, 97>>>>, <<"trims", 2, <<32>>>>, <<"trimi", 0, <<32, 97>>>>, <<"trimi", 2, <<32>>>>,
         <<"lcase">>, <<"ucase">>, <<"fill", 2>>, <<"hex", 2>>, <<"hex", 4>>, <<"b64", 2>>, <<"b64", 4>>, <<"hexstr">>, <<"ignore">>, <<"trunc", -1>>, <<"trunc", 1>>,
         <<"dec", 2, 1>>, <<"dec", 1, 2>>, <<"act">>, <<"attri">>, <<"attrs">>, <<"value">> }
Row == << <<"expect", <<97>>>>, <<"trims", 0, <<32>>>>, <<"rangei", -1, 10>>, <<"hex", 4>> >>
Init == /\ mode \in {"one", "row"}
        /\ IF mode = "one" THEN ads \in { <<a>> : a \in Ads } /\ fs \in { <<f>> : f \in SeqsUpTo(Alphabet, MaxLen) }
           ELSE ads = Row /\ fs \in [1..4 -> SeqsUpTo(Alphabet, PipeLen) \ {<<>>}]
        /\ k = 1 /\ stored = <<>> /\ st = "run"
Take == /\ st = "run" /\ k <= Len(ads)
        /\ LET v == A(ads[k], fs[k]) IN
           IF v[1] = 0 THEN st' = "any" /\ UNCHANGED <<k, stored>>
           ELSE IF v[2] = 1 THEN stored' = Append(stored, v[3]) /\ k' = k + 1 /\ st' = "run"
           ELSE st' = "fail" /\ UNCHANGED <<k, stored>>
        /\ UNCHANGED <<mode, ads, fs>>
RowEnd == st = "run" /\ k > Len(ads) /\ st' = "ok" /\ UNCHANGED <<mode, ads, fs, k, stored>>
Done == /\ st \in {"ok", "fail", "any"} /\ st' = st \o "." /\ UNCHANGED <<mode, ads, fs, k, stored>>
        /\ PrintT(ToJson(IF mode = "one" THEN [o |-> "adapt", i |-> <<ads[1], fs[1]>>, r |-> <<>>] ELSE [o |-> "pipe", i |-> <<0, ads, fs>>, r |-> <<>>]))
Next == Take \/ RowEnd \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ended == st \in {"ok.", "fail.", "any."}
F == fs[1]
O == A(ads[1], F)
One(kind) == Ended /\ mode = "one" /\ ads[1][1] = kind
\* trimming keeps one contiguous piece, drops only listed characters, leaves none at a trimmed end
TrimRight == One("trims") =>
   LET D == ToSetOf(ads[1][3]) t == O[3] IN
   /\ \E b \in 0..Len(F) : /\ b + Len(t) <= Len(F) /\ Sub(F, b, b + Len(t)) = t
                           /\ \A q \in 1..b : F[q] \in D
                           /\ \A q \in (b + Len(t) + 1)..Len(F) : F[q] \in D
   /\ (ads[1][2] \in {0, 1} /\ t # <<>>) => t[1] \notin D
   /\ (ads[1][2] \in {0, 2} /\ t # <<>>) => t[Len(t)] \notin D
CaseRight == /\ One("lcase") => Len(O[3]) = Len(F) /\ UpperS(O[3]) = UpperS(F) /\ \A q \in 1..Len(F) : ~IsUpper(O[3][q])
             /\ One("ucase") => Len(O[3]) = Len(F) /\ LowerS(O[3]) = LowerS(F) /\ \A q \in 1..Len(F) : ~IsLower(O[3][q])
RangeRight == One("rangei") => (O[2] = 1 <=> IntConv(F, 2)[1] = 1 /\ IntOf(IntConv(F, 2)[2]) \in ads[1][2]..ads[1][3])
HexRight == One("hex") /\ O[2] = 1 => NoZero(LowerS(CD!Hex(O[3]))) = NoZero(LowerS(HexBody(F)))
B64Right == One("b64") /\ O[1] = 1 /\ O[2] = 1 => CD!UnB64(F) = SubSeq(O[3], ads[1][2] - Len(CD!UnB64(F)) + 1, ads[1][2])
DecRight == One("dec") /\ O[1] = 1 /\ O[2] = 1 => Len(Body(O[3])) <= ads[1][2] + 6
\* a row succeeds exactly when each field is accepted; nothing after the first rejection is stored
RowRight == (Ended /\ mode = "row" /\ st # "any.") =>
   /\ (st = "ok.") <=> \A j \in 1..Len(ads) : A(ads[j], fs[j])[2] = 1
   /\ \A j \in 1..Len(stored) : stored[j] = A(ads[j], fs[j])[3]
   /\ PipeOK(PipeExp(ads, fs), Len(ads), <<B2N(st = "ok.")>> \o stored \o Rep(Kept, Len(ads) - Len(stored)))
Terminates == <>Ended
=============================================================================
