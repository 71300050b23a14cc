------------------------------- MODULE Adapt --------------------------------
(* Field adaptors: for every field either the adaptor rejects it, or accepts *)
(* it and stores one value.  A(ad, f) = <<judged, accepted, stored text>>.   *)
EXTENDS Parse
CD == INSTANCE Codec
No == <<1, 0, Kept>>
Ok(t) == <<1, 1, t>>
Open == <<0, 0, Kept>>
If(b, t) == IF b THEN Ok(t) ELSE No
OfConv(c) == If(c[1] = 1, c[2])
RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE NoZero(_)
NoZero(s) == IF s = <<>> \/ s[1] # 48 THEN s ELSE NoZero(Tail(s))
\* value of a canonical decimal that fits 32 bits
IntOf(s) == LET b == Body(s) IN IF IsNeg(s) THEN FoldLeft(LAMBDA a, c : a * 10 - (c - 48), 0, b) ELSE FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, b)
Dot(s) == FirstFrom(0, Len(s) - 1, LAMBDA k : s[k + 1] = 46)
\* text before and after the first full stop
IPart(s) == IF Dot(s) = -1 THEN s ELSE Sub(s, 0, Dot(s))
FPart(s) == IF Dot(s) = -1 THEN <<>> ELSE Sub(s, Dot(s) + 1, Len(s))
\* trimming
RECURSIVE Lead(_, _)
Lead(s, D) == IF s # <<>> /\ s[1] \in D THEN Lead(Tail(s), D) ELSE s
Trail(s, D) == Rev(Lead(Rev(s), D))
Trim(m, s, D) == CASE m = 0 -> Lead(Trail(s, D), D) [] m = 1 -> Lead(s, D) [] m = 2 -> Trail(s, D)
\* multiples of one quarter
QFrac == {<<>>, <<48>>, <<50, 53>>, <<53>>, <<55, 53>>}
QVal(f) == CASE f \in {<<>>, <<48>>} -> 0 [] f = <<50, 53>> -> 1 [] f = <<53>> -> 2 [] f = <<55, 53>> -> 3
QShape(s) == LET u == Body(s) IN IPart(u) # <<>> /\ Len(IPart(u)) < 7 /\ AllDigits(IPart(u)) /\ FPart(u) \in QFrac
QOf(s) == LET u == Body(s) v == 4 * IntOf(IPart(u)) + QVal(FPart(u)) IN IF IsNeg(s) THEN -v ELSE v
NoDigit(s) == \A k \in 1..Len(s) : ~IsDigit(s[k]) /\ s[k] \notin {46, 73, 105, 78, 110, 43, 45, 35, 32}
\* numbers in hexadecimal and base64: big endian bytes of a number of w bytes
HexBody(f) == IF Len(f) > 2 /\ f[1] = 48 /\ f[2] \in {120, 88} THEN SubSeq(f, 3, Len(f)) ELSE f
IsHex(s) == s # <<>> /\ \A k \in 1..Len(s) : CD!HexVal(s[k]) >= 0
HexNum(f, w) == LET b == HexBody(f) IN IF IsHex(b) /\ Len(b) <= 2 * w THEN Ok(CD!Unhex(Rep(48, 2 * w - Len(b)) \o b)) ELSE No
B64Num(f, w) ==
  IF f = <<>> \/ \E k \in 1..Len(f) : CD!B64Val(f[k]) < 0 /\ f[k] # 61 THEN No
  ELSE IF ~CD!Canonical64(f) THEN Open
  ELSE LET d == CD!UnB64(f) IN IF Len(d) > w THEN No ELSE Ok(Rep(0, w - Len(d)) \o d)
\* integer part of a number with f fractional digits (-1: unknown)
Trunc(s, f) ==
  IF f >= 0 /\ Len(s) < f + 1 THEN No
  ELSE IF f = -1 THEN OfConv(IntConv(IPart(s), 2))
  ELSE IF s[Len(s) - f] # 46 THEN Open
  ELSE OfConv(IntConv(Sub(s, 0, Len(s) - (f + 1)), 2))
\* decimal with at most n integer digits, fraction cut to m digits; stored in millionths
Decimal(s, n, m) ==
  LET u == Body(s) a == NoZero(IPart(u)) f == FPart(u) g == SubSeq(f, 1, Min2(m, Len(f)))
      v == NoZero(a \o g \o Rep(48, 6 - Len(g))) IN
  IF u = <<>> \/ ~AllDigits(a) \/ Len(a) > n \/ ~AllDigits(g) THEN No
  ELSE IF ~AllDigits(f) \/ u = <<46>> \/ (IPart(u) = <<>> /\ f = <<>>) THEN Open
  ELSE Ok(IF v = <<>> THEN <<48>> ELSE IF IsNeg(s) THEN <<45>> \o v ELSE v)
A(ad, f) ==
  CASE ad[1] = "expect"  -> If(f = ad[2], f)
    [] ad[1] = "iexpect" -> If(LowerS(f) = LowerS(ad[2]), f)
    [] ad[1] = "like"    -> If(WILD!Accepts(ad[2], f, 42, 63), f)
    [] ad[1] = "rangei"  -> LET c == IntConv(f, 2) IN IF c[1] = 0 THEN No ELSE If(ad[2] <= IntOf(c[2]) /\ IntOf(c[2]) <= ad[3], c[2])
    [] ad[1] = "ranges"  -> If(~LexLT(f, ad[2]) /\ ~LexLT(ad[3], f), f)
    [] ad[1] = "ranged"  -> IF QShape(f) THEN If(ad[2] <= QOf(f) /\ QOf(f) <= ad[3], Dec(QOf(f))) ELSE IF NoDigit(f) THEN No ELSE Open
    [] ad[1] = "trims"   -> Ok(Trim(ad[2], f, ToSetOf(ad[3])))
    [] ad[1] = "trimi"   -> OfConv(IntConv(Trim(ad[2], f, ToSetOf(ad[3])), 2))
    [] ad[1] = "lcase"   -> Ok(LowerS(f))
    [] ad[1] = "ucase"   -> Ok(UpperS(f))
    [] ad[1] = "fill"    -> If(ByteSize(f) = ad[2], f)
    [] ad[1] = "hex"     -> HexNum(f, ad[2])
    [] ad[1] = "b64"     -> B64Num(f, ad[2])
    [] ad[1] = "hexstr"  -> LET b == HexBody(f) IN IF CD!HexText(b) THEN Ok(CD!Unhex(b)) ELSE No
    [] ad[1] = "ignore"  -> Ok(<<>>)
    [] ad[1] = "trunc"   -> Trunc(f, ad[2])
    [] ad[1] = "dec"     -> Decimal(f, ad[2], ad[3])
    [] ad[1] = "act"     -> If(f # <<>> /\ f[1] # 110, f)
    [] ad[1] = "attri"   -> OfConv(IntConv(f, 2))
    [] ad[1] = "attrs"   -> Ok(f)
    [] ad[1] = "value"   -> OfConv(IntConv(f, 2))
\* observed <<accepted, stored>>
Fits(v, r) == v[1] = 0 \/ r = <<v[2], v[3]>>
RECURSIVE PipeExp(_, _)
PipeExp(ads, fs) ==        \* values stored by a row of adaptors, up to the first rejection
  IF ads = <<>> THEN <<>> ELSE LET v == A(ads[1], fs[1]) IN <<v>> \o (IF v[2] = 1 THEN PipeExp(Tail(ads), Tail(fs)) ELSE <<>>)
PipeOK(p, n, r) ==
  \/ \E k \in 1..Len(p) : p[k][1] = 0
  \/ /\ r[1] = B2N(Len(p) = n /\ p[n][2] = 1)
     /\ \A k \in 1..n : IF k <= Len(p) /\ p[k][2] = 1 THEN r[k + 1] = p[k][3] ELSE (k > Len(p)) => r[k + 1] = Kept
AdaptExpected(o, i) == CASE o = "adapt" -> <<A(i[1], i[2])>> [] o = "pipe" -> <<PipeExp(i[2], i[3])>>
AdaptConforms(o, i, r) ==
  CASE o = "adapt" -> Len(r) = 1 /\ Fits(A(i[1], i[2]), r[1])
    [] o = "pipe"  -> Len(r) = 1 /\ PipeOK(PipeExp(i[2], i[3]), Len(i[2]), r[1])
=============================================================================
