------------------------------ MODULE MCBloom ------------------------------
(* All histories of three filters over a few items, for every placement of  *)
(* the items' bits, with the set of elements each filter must still report. *)
EXTENDS Bloom, Json
CONSTANTS Size, Spots, Items, Depth, Pcts
VARIABLES ms, s, must, hist
vars == <<ms, s, must, hist>>
Cs == << <<1, 0, 1, 2, 2, 10000, 5>> >>
Places == { <<a, b>> : a, b \in Spots }
Init == /\ \E p \in [1..Items -> { q \in Places : q[1] <= q[2] }] : ms = << <<1, Size, 2, p>> >>
        /\ s = <<None, None, None>> /\ must = <<{}, {}, {}>> /\ hist = <<>>
NewSize(e) == IF e[1] # "zip" THEN 0 ELSE CHOOSE x \in ZipSizes(SizeOf(s[e[2]], ms), e[3]) : \A y \in ZipSizes(SizeOf(s[e[2]], ms), e[3]) : x >= y
\* what a user may rely on after e
MustStep(e, n) ==
  CASE e[1] = "new" -> [must EXCEPT ![e[2]] = {}]
    [] e[1] = "def" -> [must EXCEPT ![e[2]] = {}]
    [] e[1] = "ins" -> [must EXCEPT ![e[2]] = @ \cup {e[3]}]
    [] e[1] \in {"cpy", "asg"} -> [must EXCEPT ![e[3]] = must[e[2]]]
    [] e[1] = "sav" -> IF s[e[2]].c = 0 THEN must ELSE [must EXCEPT ![e[3]] = must[e[2]]]
    [] e[1] = "cut" -> IF s[e[2]].c = 0 THEN must ELSE [must EXCEPT ![e[3]] = {}]
    [] e[1] \in {"and", "or", "xor"} ->
         IF ~Mates(s[e[2]], s[e[3]], Cs, ms) THEN must
         ELSE [must EXCEPT ![e[2]] = CASE e[1] = "or" -> must[e[2]] \cup must[e[3]] [] e[1] = "and" -> must[e[2]] \cap must[e[3]] [] e[1] = "xor" -> {}]
    [] e[1] = "clr" -> [must EXCEPT ![e[2]] = {}]
    [] e[1] = "zip" -> must
Do(e) == /\ Len(hist) < Depth
         /\ s' = Step(s, e, Cs, ms, NewSize(e)) /\ must' = MustStep(e, s') /\ hist' = Append(hist, e) /\ UNCHANGED ms
         /\ (Len(hist') = Depth /\ ms[1][4] = [x \in 1..Items |-> <<Min(Spots), Min(Spots)>>]) =>
              PrintT(ToJson([o |-> "bloom", i |-> <<Cs, [x \in 1..Items |-> <<"str", <<96 + x>>>>], hist'>>, r |-> <<>>]))
Live == { k \in 1..2 : s[k].c # 0 }
Next == \/ \E k \in 1..2 : s[k].c = 0 /\ Do(<<"new", k, 1, 1>>)
        \/ \E k \in Live, x \in 1..Items : Do(<<"ins", k, x, 0>>)
        \/ \E k \in Live, j \in 1..2 : k # j /\ (\E w \in {"cpy", "asg", "sav"} : Do(<<w, k, j>>))
        \/ \E k \in Live : Do(<<"cut", k, k, 50>>)
        \/ \E k, j \in Live, w \in {"and", "or", "xor"} : Do(<<w, k, j>>)
        \/ \E k \in Live : Do(<<"clr", k>>)
        \/ \E k \in Live, p \in Pcts : Do(<<"zip", k, p>>)
Spec == Init /\ [][Next]_vars
Remembers == \A k \in 1..3 : \A x \in must[k] : Has(s[k], x, ms)
EmptyHasNothing == \A k \in 1..3 : s[k].b = {} => \A x \in 1..Items : ~Has(s[k], x, ms)
InTable == \A k \in 1..3 : \A b \in s[k].b : b >= 0 /\ b < SizeOf(s[k], ms)
SizesShrink == \A k \in 1..3 : \A x \in 1..Len(s[k].z) : s[k].z[x] % 8 = 0 /\ s[k].z[x] < (IF x = 1 THEN Size ELSE s[k].z[x - 1])
=============================================================================
