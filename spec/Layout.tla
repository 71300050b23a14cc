------------------------------ MODULE Layout --------------------------------
(* Text layout: steps that pad, cut, move or convert bytes of a text.       *)
(* A step is <<what, a, b>> with two numbers.                               *)
EXTENDS Bytes
Pad(w, s) == Max2(0, w - Len(s))
Printable(c) == IF c >= 33 /\ c <= 126 THEN c ELSE 46
Centered(w, p, s) == Rep(p, Pad(w, s) \div 2) \o s \o Rep(p, Pad(w, s) - Pad(w, s) \div 2)
Exchange(s, a, b) == IF a >= Len(s) \/ b >= Len(s) THEN s ELSE [s EXCEPT ![a + 1] = s[b + 1], ![b + 1] = s[a + 1]]
Without(s, a) == IF a >= Len(s) THEN s ELSE SubSeq(s, 1, a) \o SubSeq(s, a + 2, Len(s))
With(s, a, c) == IF a > Len(s) THEN s ELSE SubSeq(s, 1, a) \o <<c>> \o SubSeq(s, a + 1, Len(s))
Rest(s, a, empty) == IF a < Len(s) THEN SubSeq(s, a + 1, Len(s)) ELSE IF empty THEN <<>> ELSE s
Step(w, a, b, s) ==
  CASE w = "center" -> Centered(a, b, s)
    [] w = "right" -> Rep(b, Pad(a, s)) \o s
    [] w = "left" -> s \o Rep(b, Pad(a, s))
    [] w = "rest" -> Rest(s, a, b = 1)
    [] w = "swap" -> Exchange(s, a, b)
    [] w = "remove" -> Without(s, a)
    [] w = "insert" -> With(s, a, b)
    [] w = "upper" -> UpperS(s)
    [] w = "lower" -> LowerS(s)
    [] w = "print" -> Map(s, Printable)
RECURSIVE Run(_, _)
Run(s, steps) == IF steps = <<>> THEN <<>> ELSE LET t == TLCEval(Step(steps[1][1], steps[1][2], steps[1][3], s)) IN <<t>> \o Run(t, Tail(steps))
IsHex(c) == IsDigit(c) \/ c \in 65..70 \/ c \in 97..102
Letter(c) == IsUpper(c) \/ IsLower(c)
Kinds(c) == <<B2N(Letter(c)), B2N(IsLower(c)), B2N(IsUpper(c)), B2N(IsDigit(c)), B2N(IsHex(c)), B2N(Letter(c) \/ IsDigit(c))>>
LayoutExpected(o, i) ==
  CASE o = "layout" -> Run(i[1], i[2])
    [] o = "kinds" -> <<[k \in 1..Len(i[1]) |-> Kinds(i[1][k])], B2N(\A k \in 1..Len(i[1]) : Letter(i[1][k])), B2N(\A k \in 1..Len(i[1]) : IsDigit(i[1][k]))>>
    \* values written out, padded with a byte and with a space; i = <<width, pad, text of a number>>
    [] o = "values" -> <<Centered(i[1], i[2], i[3]), Step("right", i[1], i[2], i[3]), Step("left", i[1], i[2], i[3]),
                         Centered(i[1], 32, i[3]), Step("right", i[1], 32, i[3]), Step("left", i[1], 32, i[3])>>
LayoutConforms(o, i, r) == r = LayoutExpected(o, i)
=============================================================================
