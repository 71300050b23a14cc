------------------------------- MODULE Sinks --------------------------------
(* Where fields go: output adaptors that convert and store what they are     *)
(* given, and container sinks that take one variable's place in a parse and  *)
(* split their field once more.                                              *)
EXTENDS Parse
Outer == {124}
\* ---- adaptors
Delivered(f, ty) == LET v == Elems(f, ty) IN <<After("seq", Old(ty), v), After("set", Old(ty), v), After("mset", Old(ty), v)>>
\* ---- sinks: what one field does to a container of the given kind
SinkAfter(kind, f, D, opt, n, ty) == LET c == Cont(f, D, opt, n, ty) IN
  CASE kind = "seq" -> c[2] [] kind = "set" -> c[4] [] kind = "mset" -> c[6]
SinkRet(kind, f, D, opt, n, ty) == LET c == Cont(f, D, opt, n, ty) IN
  CASE kind = "seq" -> c[1] [] kind = "set" -> c[3] [] kind = "mset" -> c[5]
SinkOk(kind, f, D, opt, n, ty) == IF n < 0 THEN SinkRet(kind, f, D, opt, n, ty) > 0 ELSE SinkRet(kind, f, D, opt, n, ty) = n
\* two sinks with a text between them
SinkRow(kind, t, D, opt, n, ty) ==
  LET ts == Toks(t, Outer, 1) none == After(kind, Old(ty), <<>>) IN
  IF Len(ts) < 3 THEN <<0, none, Kept, none>>
  ELSE IF ~SinkOk(kind, ts[1], D, opt, n, ty) THEN <<0, SinkAfter(kind, ts[1], D, opt, n, ty), Kept, none>>
  ELSE <<B2N(SinkOk(kind, ts[3], D, opt, n, ty)), SinkAfter(kind, ts[1], D, opt, n, ty), ts[2], SinkAfter(kind, ts[3], D, opt, n, ty)>>
SinksExpected(o, i) ==
  CASE o = "deliver" -> Delivered(i[1], i[2])
    [] o = "values" -> <<Len(i[1])>> \o Delivered(i[1], i[2])
    [] o = "sinks" -> [k \in 1..3 |-> SinkRow(<<"seq", "set", "mset">>[k], i[1], ToSetOf(i[2]), i[3], i[4], i[5])]
    [] o = "bulk" -> LET v == Elems(i[1], "i") IN <<i[2] * Len(i[1]), <<i[2] * Len(v), Packed(Cat([k \in 1..Len(v) |-> v[k] \o <<44>>]), i[2])>>>>
    [] o = "unbound" -> <<0>>
SinksConforms(o, i, r) == r = SinksExpected(o, i)
=============================================================================
