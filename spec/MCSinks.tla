------------------------------ MODULE MCSinks -------------------------------
(* Two machines.  "give": fields are handed to an adaptor one at a time.     *)
(* "row": a parse of  sink | text | sink, each sink taking its field's       *)
(* elements one at a time and stopping at its limit.                         *)
EXTENDS Sinks, Json
CONSTANTS FieldCount, MaxGiven, Alphabet, MaxLen, MaxTake, Kinds
VARIABLES mode, given, bag, order, s, kind, lim, at, el, taken, had, a, b, mid, st
vars == <<mode, given, bag, order, s, kind, lim, at, el, taken, had, a, b, mid, st>>
D == {59}
\* "5" "1" "-2" "x" "" "05" "2147483648" "2147483647"
FieldTexts == <<<<53>>, <<49>>, <<45, 50>>, <<120>>, <<>>, <<48, 53>>, <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>>>
Fields == { FieldTexts[k] : k \in 1..FieldCount }
Start == After(kind, Old("i"), <<>>)
Init == /\ given = <<>> /\ order = Old("i") /\ bag = [x \in {Old("i")[1]} |-> 1]
        /\ at = 1 /\ el = 1 /\ taken = 0 /\ had = 0 /\ mid = Kept /\ st = "run"
        /\ \/ mode = "give" /\ s = <<>> /\ kind = "seq" /\ lim = -1
           \/ mode = "row" /\ s \in SeqsUpTo(Alphabet, MaxLen) /\ kind \in Kinds /\ lim \in -1..MaxTake
        /\ a = Old("i") /\ b = Old("i")
Give == /\ mode = "give" /\ Len(given) < MaxGiven
        /\ \E f \in Fields : /\ given' = Append(given, f)
              /\ LET v == IntConv(f, 2) IN
                 IF v[1] = 0 THEN UNCHANGED <<order, bag>>
                 ELSE order' = Append(order, v[2]) /\ bag' = [x \in DOMAIN bag \cup {v[2]} |-> (IF x \in DOMAIN bag THEN bag[x] ELSE 0) + B2N(x = v[2])]
        /\ UNCHANGED <<mode, s, kind, lim, at, el, taken, had, a, b, mid, st>>
row == Toks(s, Outer, 1)
Enough == Len(row) >= 3
inner == Toks(row[at], D, 1)
\* adding to a container of this kind
Add(c, v) == IF kind = "set" /\ v \in ToSetOf(c) THEN c ELSE Append(c, v)
Into(v) == IF at = 1 THEN a' = Add(a, v) /\ UNCHANGED b ELSE b' = Add(b, v) /\ UNCHANGED a
Full == lim >= 0 /\ had >= lim
Take == /\ mode = "row" /\ st = "run" /\ Enough /\ at \in {1, 3} /\ el <= Len(inner) /\ ~Full
        /\ el' = el + 1 /\ had' = had + 1
        /\ LET v == IntConv(inner[el], 2) c == IF at = 1 THEN a ELSE b IN
           IF v[1] = 0 THEN UNCHANGED <<a, b, taken>>
           ELSE Into(v[2]) /\ taken' = taken + (Len(Add(c, v[2])) - Len(c))
        /\ UNCHANGED <<mode, given, order, bag, s, kind, lim, at, mid, st>>
EndSink == /\ mode = "row" /\ st = "run" /\ Enough /\ at \in {1, 3} /\ (el > Len(inner) \/ Full)
           /\ LET ok == IF lim < 0 THEN Len(inner) > 0 ELSE taken = lim IN
              IF ~ok THEN st' = "fail" /\ UNCHANGED <<at, el, taken, had>>
              ELSE /\ el' = 1 /\ taken' = 0 /\ had' = 0
                   /\ IF at = 3 THEN st' = "ok" /\ UNCHANGED at ELSE at' = 2 /\ UNCHANGED st
           /\ UNCHANGED <<mode, given, order, bag, s, kind, lim, a, b, mid>>
Mid == /\ mode = "row" /\ st = "run" /\ Enough /\ at = 2 /\ mid' = row[2] /\ at' = 3
       /\ UNCHANGED <<mode, given, order, bag, s, kind, lim, el, taken, had, a, b, st>>
Short == mode = "row" /\ st = "run" /\ ~Enough /\ st' = "fail" /\ UNCHANGED <<mode, given, order, bag, s, kind, lim, at, el, taken, had, a, b, mid>>
Emit(o, in) == PrintT(ToJson([o |-> o, i |-> in, r |-> SinksExpected(o, in)]))
Done == /\ st \in {"ok", "fail"} /\ st' = st \o "." /\ UNCHANGED <<mode, given, order, bag, s, kind, lim, at, el, taken, had, a, b, mid>>
        /\ (kind = "seq" => Emit("sinks", <<s, <<59>>, 1, lim, "i">>))
Next == Give \/ Take \/ EndSink \/ Mid \/ Short \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Take \/ EndSink \/ Mid \/ Short \/ Done)
GiveRight == mode = "give" =>
   LET d == Delivered(given, "i") IN
   /\ d[1] = order
   /\ ToSetOf(d[2]) = DOMAIN bag /\ Len(d[2]) = Cardinality(DOMAIN bag)
   /\ \A x \in DOMAIN bag : Cardinality({ k \in 1..Len(d[3]) : d[3][k] = x }) = bag[x]
   /\ Len(d[3]) = Len(order)
GiveOut == mode = "give" => Emit("deliver", <<given, "i">>) /\ Emit("deliver", <<given, "s">>) /\ Emit("values", <<Keep(given, LAMBDA f : IntConv(f, 2)[1] = 1), "i">>)
RowRight == st \in {"ok.", "fail."} => SinkRow(kind, s, D, 1, lim, "i") = <<B2N(st = "ok."), View(kind, a), mid, View(kind, b)>>
\* a limited sink that succeeds added exactly its limit
Limited == (st = "ok." /\ lim >= 0) => Len(a) = Len(Old("i")) + lim /\ Len(b) = Len(Old("i")) + lim
KeptOld == Old("i")[1] \in ToSetOf(a) /\ Old("i")[1] \in ToSetOf(b)
RowEnds == (mode = "row") ~> (st \in {"ok.", "fail."})
=============================================================================
