-------------------------------- MODULE Num --------------------------------
(* Text <-> number.  Values are exact: an integer is its canonical decimal   *)
(* text, a real is sign, significant digits and a decimal exponent.          *)
EXTENDS Bytes

\* type numbers: 0 short 1 ushort 2 int 3 uint 4 long 5 ulong 6 llong 7 ullong
MaxText == <<"32767", "65535", "2147483647", "4294967295", "9223372036854775807", "18446744073709551615", "9223372036854775807", "18446744073709551615">>
MinText == <<"32768", "", "2147483648", "", "9223372036854775808", "", "9223372036854775808", "">>
DigitChar == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Digs(str) == [k \in 1..Len(str) |-> 48 + (CHOOSE d \in 0..9 : DigitChar[d + 1] = SubSeq(str, k, k))]
MaxDigs == [t \in 0..7 |-> Digs(MaxText[t + 1])]
MinDigs == [t \in 0..7 |-> Digs(MinText[t + 1])]
Signed(t) == t \in {0, 2, 4, 6}

Minus == 45
Plus == 43
AllDigits(s) == \A k \in 1..Len(s) : IsDigit(s[k])
RECURSIVE Strip0(_)
Strip0(s) == IF s = <<>> \/ s[1] # 48 THEN s ELSE Strip0(Tail(s))
\* a <= b for significant digit strings
DigLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ (a = b \/ LexLT(a, b)))
HasSign(s) == s # <<>> /\ s[1] \in {Minus, Plus}
IsNeg(s) == s # <<>> /\ s[1] = Minus
Body(s) == IF HasSign(s) THEN Tail(s) ELSE s
Canon(neg, sig) == IF sig = <<>> THEN <<48>> ELSE IF neg THEN <<Minus>> \o sig ELSE sig
\* is s a numeral of type t whose value fits
IntOk(s, t) ==
  LET b == Body(s) sig == Strip0(b) IN
  /\ b # <<>> /\ AllDigits(b)
  /\ IsNeg(s) => Signed(t)
  /\ DigLeq(sig, IF IsNeg(s) THEN MinDigs[t] ELSE MaxDigs[t])
\* outcome: success flag and the value (or "K": the variable keeps what it had)
Kept == <<75>>
IntConv(s, t) == IF IntOk(s, t) THEN <<1, Canon(IsNeg(s), Strip0(Body(s)))>> ELSE <<0, Kept>>

(* fixed length fast conversions (documented precondition: digits only,     *)
(* unless the check is asked for)                                           *)
FastOk(s) == AllDigits(s) /\ Len(s) <= 19
SFastOk(s) == AllDigits(Body(s)) /\ Len(Body(s)) <= 19

(*---------------------------------------------------------------- reals ---*)
(* The grammar as an automaton, one character per step.  "X" is the dead     *)
(* state; "F" is entered by texts whose treatment is left open (a number     *)
(* followed directly by an infinity/nan word in the style 1.#INF, which is   *)
(* neither a decimal nor a bare word).                                       *)
LitInfL == <<105, 110, 102, 105, 110, 105, 116, 121>>
LitInfU == <<73, 78, 70, 73, 78, 73, 84, 89>>
Words == { SubSeq(LitInfL, 1, 3), LitInfL, SubSeq(LitInfU, 1, 3), LitInfU, <<110, 97, 110>>, <<78, 65, 78>> }
RStep(q, c) ==
  CASE q = "start" -> IF c \in {Minus, Plus} THEN "sign" ELSE IF IsDigit(c) THEN "int" ELSE IF c = 46 THEN "dot0" ELSE "X"
    [] q = "sign"  -> IF IsDigit(c) THEN "int" ELSE IF c = 46 THEN "dot0" ELSE "X"
    [] q = "int"   -> IF IsDigit(c) THEN "int" ELSE IF c = 46 THEN "dot" ELSE IF c \in {69, 101} THEN "e" ELSE IF c \in {70, 102, 76, 108} THEN "suffix" ELSE "X"
    [] q = "dot0"  -> IF IsDigit(c) THEN "frac" ELSE "X"
    [] q \in {"dot", "frac"} -> IF IsDigit(c) THEN "frac" ELSE IF c \in {69, 101} THEN "e" ELSE IF c \in {70, 102, 76, 108} THEN "suffix" ELSE "X"
    [] q = "e"     -> IF c \in {Minus, Plus} THEN "esign" ELSE IF IsDigit(c) THEN "exp" ELSE "X"
    [] q = "esign" -> IF IsDigit(c) THEN "exp" ELSE "X"
    [] q = "exp"   -> IF IsDigit(c) THEN "exp" ELSE IF c \in {70, 102, 76, 108} THEN "suffix" ELSE "X"
    [] OTHER       -> "X"
RAccept == {"int", "dot", "frac", "exp", "suffix"}
RECURSIVE RRun(_, _, _)
RRun(q, s, k) == IF k > Len(s) \/ q = "X" THEN q ELSE RRun(RStep(q, s[k]), s, k + 1)
IsDecimal(s) == RRun("start", s, 1) \in RAccept
IsWord(s) == Body(s) \in Words
\* a trailing word after something else: left open
SpecialTail(s) == \E w \in Words : EndsWith(w, s) /\ ~IsWord(s)
\* pieces of a decimal
MantEnd(s) == LET e == FirstFrom(0, Len(s) - 1, LAMBDA q : s[q + 1] \in {69, 101}) IN IF e = -1 THEN Len(s) ELSE e
NoSuffix(s) == IF s # <<>> /\ s[Len(s)] \in {70, 102, 76, 108} THEN SubSeq(s, 1, Len(s) - 1) ELSE s
ExpText(s) == LET u == NoSuffix(s) m == MantEnd(u) IN IF m = Len(u) THEN <<>> ELSE SubSeq(u, m + 2, Len(u))
ExpSig(s) == Strip0(Body(ExpText(s)))
RECURSIVE NumOf(_)
NumOf(d) == IF d = <<>> THEN 0 ELSE 10 * NumOf(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)] - 48
ExpVal(s) == LET x == ExpSig(s) n == IF Len(x) > 4 THEN 99999 ELSE NumOf(x) IN IF IsNeg(ExpText(s)) THEN -n ELSE n
Mant(s) == LET u == Body(NoSuffix(s)) IN SubSeq(u, 1, MantEnd(u))
DotPos(m) == LET d == FirstFrom(0, Len(m) - 1, LAMBDA q : m[q + 1] = 46) IN IF d = -1 THEN Len(m) ELSE d
MDigits(m) == SelectSeq(m, IsDigit)
\* value = 0.d1d2d3... * 10^Point
Point(s) == LET m == Mant(s) all == MDigits(m) z == Len(all) - Len(Strip0(all)) IN DotPos(m) - z + ExpVal(s)
SigDigits(s) == Strip0(MDigits(Mant(s)))

(* observation of a converted real: <<ok, kind, neg, head, tail, exp>>       *)
(*   kind 0 zero, 1 finite, 2 infinite, 3 nan, 9 variable unchanged, 8 changed though failed *)
(*   finite: head*10^6+tail are the first 15 significant digits (d.ddd form), exp its exponent *)
DigAt(d, k) == IF k <= Len(d) THEN d[k] - 48 ELSE 0
RECURSIVE Acc(_, _, _)
Acc(d, from, to) == IF from > to THEN 0 ELSE 10 * Acc(d, from, to - 1) + DigAt(d, to)
Head9(d) == Acc(d, 1, 9)
Tail6(d) == Acc(d, 10, 15)
Abs(x) == IF x < 0 THEN -x ELSE x
\* |(h,t) - (h2,t2)| <= tol, tol < 10^6
Near15(h, t, h2, t2, tol) == Abs(h - h2) <= 1 /\ Abs((h - h2) * 1000000 + (t - t2)) <= tol
\* same value within tol units of the 15th digit; carries across a power of ten allowed
Close15(h, t, e, h2, t2, e2, tol) ==
  \/ e = e2 /\ Near15(h, t, h2, t2, tol)
  \/ e = e2 + 1 /\ h = 100000000 /\ t <= tol /\ h2 = 999999999 /\ t2 >= 1000000 - 10 * tol
  \/ e2 = e + 1 /\ h2 = 100000000 /\ t2 <= tol /\ h = 999999999 /\ t >= 1000000 - 10 * tol
Close9(h, e, h2, e2, tol) ==
  \/ e = e2 /\ Abs(h - h2) <= tol
  \/ e = e2 + 1 /\ h <= 100000000 + tol /\ h2 >= 1000000000 - 10 * tol
  \/ e2 = e + 1 /\ h2 <= 100000000 + tol /\ h >= 1000000000 - 10 * tol
\* value bounds of the three real types (decimal exponents), f: 0 float 1 double 2 long double
MaxE(f) == CASE f = 0 -> 38 [] f = 1 -> 308 [] OTHER -> 4932
MinE(f) == CASE f = 0 -> -37 [] f = 1 -> -307 [] OTHER -> -4930
ValueOk(s, f, o) ==
  LET d == SigDigits(s) e == Point(s) - 1 neg == B2N(IsNeg(s)) IN
  IF d = <<>> THEN o[2] = 0 /\ o[3] = neg
  ELSE /\ o[3] = neg /\ o[2] \in {0, 1, 2}
       /\ IF e > MaxE(f) THEN o[2] = 2
          ELSE IF e = MaxE(f) THEN (o[2] = 2 \/ (o[2] = 1 /\ Close9(o[4], o[6], Head9(d), e, 300)))
          ELSE IF e > MinE(f) THEN o[2] = 1 /\ IF f = 0 THEN Close9(o[4], o[6], Head9(d), e, 300)
                                               ELSE Close15(o[4], o[5], o[6], Head9(d), Tail6(d), e, 400)
          ELSE o[2] = 0 \/ (o[2] = 1 /\ o[6] <= MinE(f) + 1)
WordKind(s) == IF Body(s)[1] \in {105, 73} THEN 2 ELSE 3
RealOk(s, f, o) ==
  IF IsWord(s) THEN o[1] = 1 /\ o[2] = WordKind(s) /\ (WordKind(s) = 2 => o[3] = B2N(IsNeg(s)))
  ELSE IF SpecialTail(s) THEN TRUE
  ELSE IF IsDecimal(s)
       THEN IF Len(ExpSig(s)) > 3
            THEN o = <<0, 9, 0, 0, 0, 0>> \/ (o[1] = 1 /\ ValueOk(s, f, o))   \* exponents beyond every type's range may be refused
            ELSE o[1] = 1 /\ ValueOk(s, f, o)
       ELSE o = <<0, 9, 0, 0, 0, 0>>

(* byte sized types take exactly one character; booleans one character      *)
ByteConv(s) == IF Len(s) = 1 THEN <<1, <<s[1]>>>> ELSE <<0, Kept>>
BoolConv(s) == IF Len(s) = 1 THEN <<1, <<IF s[1] = 48 THEN 48 ELSE 49>>>> ELSE <<0, Kept>>

NumExpected(o, i) ==
  CASE o = "int_parse"   -> [t \in 1..8 |-> <<IntConv(i[1], t - 1)>>]
    [] o = "small_parse" -> <<<<ByteConv(i[1])>>, <<ByteConv(i[1])>>, <<ByteConv(i[1])>>, <<BoolConv(i[1])>>, <<<<1, i[1]>>>>>>
    [] o = "fast_check"  -> <<<<B2N(FastOk(i[1]))>>, <<B2N(i[1] # <<>> /\ SFastOk(i[1]))>>>>
    \* digits only, or arbitrary text with the check: value for wide unsigned, wide signed, int
    [] o = "fast_conv"   -> LET ok == FastOk(i[1]) v == IF ok THEN Canon(FALSE, Strip0(i[1])) ELSE Kept IN
                            <<<<<<B2N(ok), v>>>>,
                              <<IF Len(i[1]) > 18 THEN <<2, Kept>> ELSE <<B2N(ok), v>>>>,
                              <<IF Len(i[1]) > 9 THEN <<2, Kept>> ELSE <<B2N(ok), v>>>>,
                              <<IF ok THEN v ELSE <<48>>>>>>
    [] o = "fast_signed" -> LET b == Body(i[1]) ok == b # <<>> /\ AllDigits(b) /\ Len(Strip0(b)) <= 18 IN
                            <<<<B2N(ok), IF ok THEN Canon(IsNeg(i[1]), Strip0(b)) ELSE Kept>>>>
    \* digits on trust: twenty of them at most, leading zeros of the signed forms aside
    [] o = "fast_free"   -> LET b == Body(i[1]) z == Strip0(b) IN
                            <<<<IF Len(b) <= 20 THEN <<1, Canon(FALSE, z)>> ELSE <<0, Kept>>>>,
                              <<IF Len(z) > 19 \/ ~DigLeq(z, <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>) THEN <<2, Kept>>
                                ELSE <<1, Canon(IsNeg(i[1]), z)>>>>>>
    [] o = "int_print"   -> [t \in 1..8 |-> IF IntOk(i[1], t - 1) THEN <<<<Canon(IsNeg(i[1]), Strip0(Body(i[1]))), 1>>>> ELSE <<>>]
    [] o = "small_print" -> <<<<<<i[1][1]>>, 1>>, <<<<i[1][1]>>, 1>>, <<<<i[1][1]>>, 1>>, <<<<48 + (i[1][1] % 2)>>, 1>>, <<i[1], 1>>>>
    [] o = "real_accept" -> <<B2N(IsWord(i[1]) \/ IsDecimal(i[1]))>>
    [] OTHER             -> "not a single value"
\* real_parse: r = [3 types -> list of distinct observations]
\* real_print: i = <<text>> (type f in i[2]); r = <<original observation, printed text, re-read observation>>
NumConforms(o, i, r) ==
  CASE o = "real_parse" -> \A f \in 0..2 : Len(r[f + 1]) >= 1 /\ \A k \in 1..Len(r[f + 1]) : RealOk(i[1], f, r[f + 1][k])
    [] o = "real_print" ->
         /\ IsDecimal(r[2]) \/ IsWord(r[2])
         /\ RealOk(r[2], i[2], r[1])                \* the text denotes the value it was printed from
         /\ RealOk(r[2], i[2], r[3])                \* and reads back as it
         /\ (r[1][2] \in {0, 2, 3} => r[3][2] = r[1][2] /\ (r[1][2] # 3 => r[3][3] = r[1][3]))
    [] OTHER -> r = NumExpected(o, i)
=============================================================================
