------------------------------ MODULE ExtStr --------------------------------
(* The extended string: a text, the steps that modify it and the questions  *)
(* that leave it alone.  A step is <<what, a, b, n>>: two texts and a count. *)
EXTENDS Num
SP == INSTANCE Split
SR == INSTANCE Search
RECURSIVE DropLead(_, _)
DropLead(s, D) == IF s = <<>> \/ s[1] \notin D THEN s ELSE DropLead(Tail(s), D)
DropTrail(s, D) == Rev(DropLead(Rev(s), D))
Copies(n, s) == Cat(Rep(s, n))
Change(w, a, b, n, s) ==
  CASE w = "lower" -> LowerS(s)
    [] w = "upper" -> UpperS(s)
    [] w = "lead" -> DropLead(s, ToSetOf(a))
    [] w = "trail" -> DropTrail(s, ToSetOf(a))
    [] w = "times" -> Copies(n, s)
    [] w = "minus" -> SR!Replace(s, a, <<>>)
    [] w = "replace" -> SR!Replace(s, a, b)
    [] w = "append" -> s \o a
    [] w = "number" -> s \o a
    [] w = "assign" -> a
RECURSIVE Run(_, _)
Run(s, steps) == IF steps = <<>> THEN <<>> ELSE LET t == TLCEval(Change(steps[1][1], steps[1][2], steps[1][3], steps[1][4], s)) IN <<t>> \o Run(t, Tail(steps))
IntOf(s) == IntConv(s, 2)
Pieces(s, D, opt) == SP!Texts(s, SP!Tokens(s, D, opt))
Numbers(ts) == LET v == Keep(Map(ts, IntOf), LAMBDA x : x[1] = 1) IN Map(v, LAMBDA x : x[2])
\* the questions, asked with a text x, a delimiter set and a count
Ask(s, x, D, opt, n) ==
  <<s, IntOf(s), B2N(LowerS(s) = LowerS(x)), Pieces(s, D, opt), SP!FirstN(Pieces(s, D, opt), n),
    Numbers(Pieces(s, D, 1)), Len(Pieces(s, D, 1)), s \o x, x \o s, SR!Replace(s, x, <<>>), Copies(n, s)>>
Codes(a, b) == [k \in 1..(b - a + 1) |-> a + k - 1]
ExtStrExpected(o, i) ==
  CASE o = "steps" -> <<Run(i[1], i[2])>>
    [] o = "ask" -> <<Ask(i[1], i[2], ToSetOf(i[3]), i[4], i[5])>>
    [] o = "fixed" -> <<Codes(48, 57), Codes(97, 122) \o Codes(65, 90), Codes(97, 122), Codes(65, 90), Codes(0, 255)>>
ExtStrConforms(o, i, r) == r = ExtStrExpected(o, i)
=============================================================================
