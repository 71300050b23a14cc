------------------------------ MODULE MCTools ------------------------------
(* The stream tools consume their input one byte at a time; at every point   *)
(* what they would print if the input ended there is the tool's answer for    *)
(* the bytes so far.  The argument tools grow their argument list.            *)
EXTENDS Tools, Json
CONSTANTS Kind, Alpha, MaxLen
VARIABLES seen, acc
vars == <<seen, acc>>
Pats == << <<97, 42>>, <<63, 98>>, <<42>>, <<>>, <<97, 63, 98>> >>
SP == SortTexts(Pats)
Fresh == [p \in 1..Len(SP) |-> S!Eps(SP[p], {0}, 42, 63)]
\* pieces of argument-like inputs
Menu == CASE Kind = "combos" -> { <<97>>, <<98>>, <<99>>, <<48>>, <<49>>, <<50>>, <<51>>, <<45, 49>>, <<120>> }
          [] Kind = "addr" -> { <<48>>, <<55>>, <<50, 53, 53>>, <<50, 53, 54>>, <<48, 49>>, <<120>>, <<49, 120>>, <<57, 57, 57, 57>> }
          [] Kind = "period" -> { <<49, 68>>, <<50, 104>>, <<45, 51, 77>>, <<52, 46, 53, 115>>, <<48, 46, 50, 53, 72>>, <<120, 49, 77>>, <<55, 82>>, <<45, 49, 100, 58>>, <<54, 77, 105, 110, 32>>, <<68>> }
          [] OTHER -> Alpha
Start == CASE Kind = "words" -> << <<>>, <<>> >> [] Kind = "hex" -> << <<>>, <<>>, 0 >> [] Kind = "glob" -> << <<>>, <<>>, Fresh >> [] Kind = "stats" -> << <<>>, <<>>, <<>> >> [] OTHER -> <<>>
GlobLine(a) == a[1] \o Cat([p \in 1..Len(SP) |-> IF Len(SP[p]) \in a[3][p] THEN SP[p] \o <<32, 109, 97, 116, 99, 104, 101, 100, 32>> \o a[2] \o <<LF>> ELSE <<>>])
Field(a) == IF a[3] = <<>> THEN a[2] ELSE Append(a[2], a[3])
RowEnd(a) == IF Field(a) = <<>> THEN a[1] ELSE Append(a[1], Field(a))
Feed(a, c) ==
  CASE Kind = "words" -> IF Letter(c) THEN <<a[1], Append(a[2], Lower(c))>> ELSE IF a[2] = <<>> THEN a ELSE <<Append(a[1], a[2]), <<>>>>
    [] Kind = "hex" -> IF Len(a[2]) = 15 THEN <<a[1] \o HexRow(a[3], Append(a[2], c)), <<>>, a[3] + 16>> ELSE <<a[1], Append(a[2], c), a[3]>>
    [] Kind = "glob" -> IF c = LF THEN <<GlobLine(a), <<>>, Fresh>> ELSE <<a[1], Append(a[2], c), [p \in 1..Len(SP) |-> S!Eps(SP[p], S!Delta(SP[p], a[3][p], c, 42, 63), 42, 63)]>>
    [] Kind = "stats" -> IF c = LF THEN <<RowEnd(a), <<>>, <<>>>> ELSE IF c \in {32, 44} THEN <<a[1], Field(a), <<>>>> ELSE <<a[1], a[2], Append(a[3], c)>>
    [] OTHER -> a
\* hex rows are long: its bytes come in blocks
Block == IF Kind = "hex" THEN { Rep(x, n) : x \in Alpha, n \in {5, 11, 16} } ELSE { <<x>> : x \in Alpha }
RECURSIVE FeedAll(_, _)
FeedAll(a, b) == IF b = <<>> THEN a ELSE FeedAll(TLCEval(Feed(a, b[1])), Tail(b))
Stream == Kind \in {"words", "hex", "glob", "stats"}
Init == seen = <<>> /\ acc = Start
Next == \/ Stream /\ \E b \in Block : Len(seen) + Len(b) <= MaxLen /\ seen' = seen \o b /\ acc' = FeedAll(acc, b)
        \/ ~Stream /\ Len(seen) < MaxLen /\ \E m \in Menu : seen' = Append(seen, m) /\ acc' = acc
Spec == Init /\ [][Next]_vars
\* the input may end anywhere
StreamRight ==
  CASE Kind = "words" -> (IF acc[2] = <<>> THEN acc[1] ELSE Append(acc[1], acc[2])) = WordsOf(seen)
    [] Kind = "hex" -> (IF acc[2] = <<>> THEN acc[1] ELSE acc[1] \o HexRow(acc[3], acc[2])) = HexOut(seen)
    [] Kind = "glob" -> (IF seen = <<>> \/ seen[Len(seen)] = LF THEN acc[1] ELSE GlobLine(acc)) = GlobOut(Pats, seen)
    [] Kind = "stats" -> RowEnd(acc) = Table(seen)
    [] OTHER -> TRUE
\* every choice of the items appears once, every word is counted once
RECURSIVE SumOver(_, _)
SumOver(U, w) == IF U = {} THEN 0 ELSE LET u == CHOOSE x \in U : TRUE IN Len(Keep(w, LAMBDA y : y = u)) + SumOver(U \ {u}, w)
Sums == (Kind = "words") => LET w == TLCEval(WordsOf(seen)) U == ToSetOf(w) IN SumOver(U, w) = Len(w)
RECURSIVE CatDots(_)
CatDots(v) == IF Len(v) = 1 THEN v[1] ELSE v[1] \o <<46>> \o CatDots(Tail(v))
Case == CASE Kind = "words" -> << "words", <<Len(seen) % 2, seen>> >>
          [] Kind = "stats" -> << "stats", <<Len(seen) % 2, seen>> >>
          [] Kind = "glob" -> << "glob", <<Pats, seen>> >>
          [] Kind = "hex" -> << "hex", <<seen>> >>
          [] Kind = "combos" -> << "combos", <<seen>> >>
          [] Kind = "addr" -> << "addr", <<IF seen = <<>> THEN <<>> ELSE CatDots(seen)>> >>
          [] OTHER -> << "none", <<>> >>
Distinct(v) == \A j, k \in 1..Len(v) : v[j] = v[k] => j = k
Wanted == (Kind = "combos" => (seen = <<>> \/ Distinct(Tail(seen)))) /\ (Kind = "stats" => ~\E k \in 1..(Len(seen) - 1) : seen[k] = 45 /\ seen[k + 1] = 48) /\ (Kind = "addr" => Len(seen) <= 4)
Out == /\ (Kind # "period" /\ Wanted) => PrintT(ToJson([o |-> Case[1], i |-> Case[2], r |-> ToolsExpected(Case[1], Case[2])]))
       \* every number of the menu is exact in binary
       /\ (Kind = "period" /\ Len(seen) = 4) => LET g == Groups(Cat(seen), <<>>) IN
            (Len(g) = 4 \/ ~PeriodOk(g)) => PrintT(ToJson([o |-> "period", i |-> <<Cat(seen)>>, r |-> IF PeriodOk(g) THEN <<1, PeriodMs(g)>> ELSE <<0, 0>>]))
PeriodRight == (Kind = "period" /\ Len(seen) = 4) => LET g == Groups(Cat(seen), <<>>) IN PeriodOk(g) => ({ g[k][2] : k \in 1..Len(g) } \subseteq {68, 72, 77, 83} /\ PeriodMs(g) = PeriodMs(Rev(g)))
=============================================================================
