------------------------------ MODULE MCTokens ------------------------------
(* Two tokenizers and two iterators: every history of MaxSteps calls that     *)
(* assign, copy and advance, each closed by looking at all four objects.      *)
EXTENDS Split, Json
CONSTANT MaxSteps
VARIABLES st, h, os
Txts == <<<<97, 124, 124>>, <<124, 98>>, <<>>>>
D == <<124>>
OptPairs == {<<0, 1>>, <<2, 4>>, <<1, 3>>}
Calls == ({1} \X {1, 2} \X {2, 3}) \cup {<<2, 1, 0>>, <<2, 2, 0>>, <<3, 1, 1>>, <<3, 1, 2>>, <<3, 2, 2>>, <<4, 1, 1>>, <<4, 2, 2>>, <<5, 1, 0>>, <<5, 2, 0>>}
Look == <<<<6, 1, 0>>, <<6, 2, 0>>, <<7, 1, 0>>, <<7, 2, 0>>>>
Init == /\ os \in OptPairs
        /\ st = TokInit(os[1], os[2])
        /\ h = <<>>
Next == /\ Len(h) < MaxSteps
        /\ UNCHANGED os
        /\ \E e \in Calls :
             /\ st' = TokStep(st, e)
             /\ h' = Append(h, e)
             /\ (Len(h') = MaxSteps => LET es == h' \o Look IN
                  PrintT(ToJson([o |-> "tok_hist", i |-> <<D, os, Txts, es>>, r |-> TokRun(Txts, {124}, TokInit(os[1], os[2]), es, 1)])))
Spec == Init /\ [][Next]_<<st, h, os>>
\* an iterator shows a whole token of its own text, and advancing moves on
Whole == \A w \in {1, 2} : LET v == TokSee(Txts, {124}, st, <<7, w, 0>>) IN
           v = <<>> \/ (v[1][1] <= v[1][2] /\ v[1][2] <= v[2][2] /\ v[1][1] = v[2][1])
Forward == \A w \in {1, 2} : LET v == TokSee(Txts, {124}, st, <<7, w, 0>>)
                                  n == TokSee(Txts, {124}, TokStep(st, <<4, w, 1>>), <<7, w, 0>>) IN
             (v # <<>> /\ n # <<>>) => n[1][1] >= v[1][2]
=============================================================================
