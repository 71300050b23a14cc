-------------------------------- MODULE Bits --------------------------------
(* Bytes as rows of bits: combination, interleaving, counting, single bits, *)
(* distances, and the digest, a fold of one mixing step over the elements.  *)
EXTENDS Bytes, Bitwise
Bit(b, k) == (b \div 2^k) % 2
Ones(b) == Bit(b, 0) + Bit(b, 1) + Bit(b, 2) + Bit(b, 3) + Bit(b, 4) + Bit(b, 5) + Bit(b, 6) + Bit(b, 7)
OnesIn(s) == FoldLeft(LAMBDA a, b : a + Ones(b), 0, s)
Combine(op, a, b) == CASE op = "and" -> a & b [] op = "or" -> a | b [] op = "xor" -> a ^^ b
Combined(op, a, b) == [k \in 1..Len(a) |-> Combine(op, a[k], b[k])]
\* bits of a and b alternate, a first, lowest bit first
RECURSIVE FromBits(_, _)
FromBits(f, k) == IF k = 8 THEN 0 ELSE f[k + 1] * 2^k + FromBits(f, k + 1)
Mixed(a, b) == [h \in 1..2 |-> FromBits([k \in 1..8 |-> LET p == (h - 1) * 8 + k - 1 IN IF p % 2 = 0 THEN Bit(a, p \div 2) ELSE Bit(b, p \div 2)], 0)]
Interleaved(a, b) == Cat([k \in 1..Len(a) |-> Mixed(a[k], b[k])])
\* the way back
Unmixed(x, y, off) == FromBits([k \in 1..8 |-> LET p == 2 * (k - 1) + off IN IF p < 8 THEN Bit(x, p) ELSE Bit(y, p - 8)], 0)
Untangled(m, off) == [k \in 1..(Len(m) \div 2) |-> Unmixed(m[2 * k - 1], m[2 * k], off)]
\* where bit k of a byte goes when n bytes are interleaved
Spread(b, n) == Keep([k \in 1..8 |-> IF Bit(b, k - 1) = 1 THEN (k - 1) * n ELSE -1], LAMBDA p : p >= 0)
SetBit(s, k, on) == [s EXCEPT ![(k \div 8) + 1] = IF on = Bit(@, k % 8) THEN @ ELSE IF on = 1 THEN @ + 2^(k % 8) ELSE @ - 2^(k % 8)]
RECURSIVE SetAll(_, _)
SetAll(s, ops) == IF ops = <<>> THEN s ELSE SetAll(TLCEval(SetBit(s, ops[1][1], ops[1][2])), Tail(ops))
BitsOf(s) == [k \in 1..(8 * Len(s)) |-> Bit(s[((k - 1) \div 8) + 1], (k - 1) % 8)]
BitDistance(a, b) == OnesIn(Combined("xor", a, b))
Differing(a, b) == Cardinality({ k \in 1..Len(a) : a[k] # b[k] })
\* ---- digest: a word is <<high half, low half>>
W16 == 65536
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WShl(a, k) == <<((a[1] * 2^k) + ((a[2] * 2^k) \div W16)) % W16, (a[2] * 2^k) % W16>>
WShr(a, k) == <<a[1] \div 2^k, (a[2] \div 2^k) + ((a[1] % 2^k) * 2^(16 - k))>>
WMul(b, a) == <<((b * a[1]) + ((b * a[2]) \div W16)) % W16, (b * a[2]) % W16>>
WAdd(a, b) == <<(a[1] + b[1] + ((a[2] + b[2]) \div W16)) % W16, (a[2] + b[2]) % W16>>
WNot(a) == <<65535 - a[1], 65535 - a[2]>>
Mix1(h, b) == WXor(h, WXor(WShl(h, 7), WMul(b, WShr(h, 3))))
Mix2(h, b) == WXor(h, WNot(WAdd(WShl(h, 11), WXor(<<0, b>>, WShr(h, 5)))))
RECURSIVE MixBytes(_, _)
MixBytes(h, bs) == IF bs = <<>> THEN h ELSE MixBytes(TLCEval(Mix2(TLCEval(Mix1(h, bs[1])), bs[2])), SubSeq(bs, 3, Len(bs)))
\* a byte is mixed as a four byte number
Element(e) == IF Len(e) = 1 THEN e \o <<0, 0, 0>> ELSE e
Digest(seed, es) == FoldLeft(LAMBDA h, e : MixBytes(h, Element(e)), seed, es)
DefaultSeed == <<43690, 43690>>
None == -1
Uniq(s) == SetToSortSeq(ToSetOf(s), <)
SumOf(X) == FoldLeft(LAMBDA a, x : a + 2^(x % 8), 0, SetToSeq(X))
BitsExpected(o, i) ==
  CASE o = "combine" -> <<IF Len(i[1]) # Len(i[2]) THEN <<0, i[3], i[3], i[3]>> ELSE <<1, Combined("and", i[1], i[2]), Combined("or", i[1], i[2]), Combined("xor", i[1], i[2])>>>>
    [] o = "interleave" -> <<IF Len(i[1]) # Len(i[2]) THEN <<0, i[3]>> ELSE <<1, Interleaved(i[1], i[2])>>>>
    [] o = "distance" -> <<IF Len(i[1]) # Len(i[2]) THEN <<None, None>> ELSE <<BitDistance(i[1], i[2]), Differing(i[1], i[2])>>>>
    [] o = "ones" -> <<OnesIn(i[1])>>
    [] o = "setbits" -> <<SetAll(i[1], i[2]), BitsOf(SetAll(i[1], i[2]))>>
    [] o = "spread" -> <<[b \in 1..256 |-> Spread(b - 1, i[1])]>>
    [] o = "digest" -> <<Digest(i[1], i[2]), Digest(DefaultSeed, i[2])>>
    [] o = "bits_bulk" -> LET n == i[3] a == i[1] b == i[2] IN <<n * BitDistance(a, b), n * Differing(a, b), n * OnesIn(a), Packed(Combined("and", a, b), n), Packed(Combined("or", a, b), n), Packed(Combined("xor", a, b), n), Packed(Interleaved(a, b), n)>>
    [] o = "digest_bulk" -> LET es == [k \in 1..(i[3] * Len(i[2])) |-> i[2][((k - 1) % Len(i[2])) + 1]] IN <<Digest(i[1], es), Digest(DefaultSeed, es)>>
    \* which bits of a long row of zeroes become set: the bits, and the bytes that hold them
    [] o = "setbits_bulk" -> <<Uniq(i[2]), [k \in 1..Len(Uniq([j \in 1..Len(i[2]) |-> i[2][j] \div 8])) |-> LET y == Uniq([j \in 1..Len(i[2]) |-> i[2][j] \div 8])[k] IN <<y, SumOf({ x \in ToSetOf(i[2]) : x \div 8 = y })>>], 1>>
BitsConforms(o, i, r) == r = BitsExpected(o, i)
=============================================================================
