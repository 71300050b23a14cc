------------------------------- MODULE Arrays -------------------------------
(* Helpers on fixed size arrays and on ranges that are written in place.     *)
EXTENDS Bytes
Fresh(n) == Rep(81, n)                    \* what an array held before
\* copying text into an array of n cells
SetArray(n, src, pad, byte) ==
  IF Len(src) > n THEN <<0, Fresh(n)>>
  ELSE <<1, src \o (IF pad = 1 THEN Rep(byte, n - Len(src)) ELSE Fresh(n - Len(src)))>>
ClearArray(n, len, byte) == IF len > n THEN <<0, Fresh(n)>> ELSE <<1, Rep(byte, len) \o Fresh(n - len)>>
MakeString(a, len) == IF len > Len(a) THEN <<>> ELSE SubSeq(a, 1, len)
\* only [from, to) of the text changes
Within(s, from, to, m) == SubSeq(s, 1, from) \o m \o SubSeq(s, to + 1, Len(s))
Filled(s, from, to, byte) == Within(s, from, to, Rep(byte, to - from))
Reversed(s, from, to) == Within(s, from, to, Rev(Sub(s, from, to)))
ArraysExpected(o, i) ==
  CASE o = "same" -> <<B2N(i[1] = i[2])>>
    [] o = "setarray" -> SetArray(i[1], i[2], i[3], i[4])
    [] o = "cleararray" -> ClearArray(i[1], i[2], i[3])
    [] o = "makestring" -> <<MakeString(i[1], i[2]), i[1]>>
    [] o = "inplace" -> <<Filled(i[1], i[2], i[3], i[4]), Reversed(i[1], i[2], i[3])>>
    [] o = "ends" -> <<i[1], Len(i[1])>>
ArraysConforms(o, i, r) == r = ArraysExpected(o, i)
=============================================================================
