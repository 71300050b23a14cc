------------------------------- MODULE Codec --------------------------------
(* Hexadecimal and base64 text forms of byte strings.                        *)
EXTENDS Bytes
HexUp == [d \in 0..15 |-> IF d < 10 THEN 48 + d ELSE 55 + d]
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
Hex(s) == [k \in 1..(2 * Len(s)) |-> LET b == s[(k + 1) \div 2] IN IF k % 2 = 1 THEN HexUp[b \div 16] ELSE HexUp[b % 16]]
HexText(s) == Len(s) > 0 /\ Len(s) % 2 = 0 /\ \A k \in 1..Len(s) : HexVal(s[k]) >= 0
Unhex(s) == [k \in 1..(Len(s) \div 2) |-> 16 * HexVal(s[2 * k - 1]) + HexVal(s[2 * k])]

B64Char(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN 43 ELSE 47
B64Val(c) == IF IsUpper(c) THEN c - 65 ELSE IF IsLower(c) THEN c - 71 ELSE IF IsDigit(c) THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
\* one group of up to three bytes
Group(g) ==
  LET v == g[1] * 65536 + (IF Len(g) > 1 THEN g[2] * 256 ELSE 0) + (IF Len(g) > 2 THEN g[3] ELSE 0)
      c(n) == B64Char((v \div (IF n = 1 THEN 262144 ELSE IF n = 2 THEN 4096 ELSE IF n = 3 THEN 64 ELSE 1)) % 64)
  IN <<c(1), c(2), IF Len(g) > 1 THEN c(3) ELSE 61, IF Len(g) > 2 THEN c(4) ELSE 61>>
Groups(s) == (Len(s) + 2) \div 3
B64(s) == [k \in 1..(4 * Groups(s)) |-> LET j == (k - 1) \div 4 IN Group(SubSeq(s, 3 * j + 1, Min2(3 * j + 3, Len(s))))[((k - 1) % 4) + 1]]
Unpad(s) == IF Len(s) >= 2 /\ s[Len(s) - 1] = 61 THEN SubSeq(s, 1, Len(s) - 2) ELSE IF Len(s) >= 1 /\ s[Len(s)] = 61 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
\* inverse on canonical text
UnB64(s) == LET d == Unpad(s) n == (3 * Len(d)) \div 4 IN
  [k \in 1..n |-> LET bit == 8 * (k - 1) c == bit \div 6 r == bit % 6
                      a == B64Val(d[c + 1]) b == B64Val(d[c + 2])
                  IN ((a * 64 + b) \div (IF r = 0 THEN 16 ELSE IF r = 2 THEN 4 ELSE 1)) % 256]
Canonical64(s) == /\ Len(s) % 4 = 0
                  /\ \A k \in 1..Len(Unpad(s)) : B64Val(s[k]) >= 0
                  /\ B64(UnB64(s)) = s

\* a piece (of whole groups) n times over, and a tail
CodecBulk(k, u, n, t) ==
  CASE k = "hex_enc" -> PackedThen(Hex(u), n, Hex(t))
    [] k = "hex_dec" -> IF HexText(u) /\ (t = <<>> \/ HexText(t)) THEN <<1, PackedThen(Unhex(u), n, Unhex(t))>> ELSE <<0, <<>>>>
    [] k = "b64_enc" -> PackedThen(B64(u), n, B64(t))
    [] k = "b64_dec" -> PackedThen(UnB64(u), n, UnB64(t))
CodecExpected(o, i) ==
  CASE o = "hex_enc" -> <<Hex(i[1])>>
    [] o = "codec_bulk" -> CodecBulk(i[1], i[2], i[3], i[4])
    [] o = "hex_dec" -> <<IF HexText(i[1]) THEN <<1, Unhex(i[1])>> ELSE <<0, <<>>>>>>
    [] o = "b64_enc" -> <<B64(i[1])>>
    [] o = "b64_dec" -> <<IF Canonical64(i[1]) THEN UnB64(i[1]) ELSE <<>>>>
CodecConforms(o, i, r) == (o = "b64_dec" /\ ~Canonical64(i[1])) \/ r = CodecExpected(o, i)
=============================================================================
