------------------------------- MODULE MCBits -------------------------------
(* Two byte rows growing together, with every derived row and count kept    *)
(* up to date byte by byte, and a digest fed element by element.            *)
EXTENDS Bits, Json
CONSTANTS Codes, MaxLen
VARIABLES a, b, land, lor, lxor, weave, dist, differ, dig
vars == <<a, b, land, lor, lxor, weave, dist, differ, dig>>
Seed == <<1, 2>>
Init == a = <<>> /\ b = <<>> /\ land = <<>> /\ lor = <<>> /\ lxor = <<>> /\ weave = <<>> /\ dist = 0 /\ differ = 0 /\ dig = Seed
Next == Len(a) < MaxLen /\ \E x, y \in Codes :
   /\ a' = Append(a, x) /\ b' = Append(b, y)
   /\ land' = Append(land, x & y) /\ lor' = Append(lor, x | y) /\ lxor' = Append(lxor, x ^^ y)
   /\ weave' = weave \o Mixed(x, y)
   /\ dist' = dist + Cardinality({ k \in 0..7 : Bit(x, k) # Bit(y, k) }) /\ differ' = differ + (IF x = y THEN 0 ELSE 1)
   /\ dig' = MixBytes(dig, Element(<<x>>))
Spec == Init /\ [][Next]_vars
Rows == land = Combined("and", a, b) /\ lor = Combined("or", a, b) /\ lxor = Combined("xor", a, b)
XorUndoes == Combined("xor", lxor, b) = a /\ Combined("xor", lxor, a) = b
Inclusion == OnesIn(land) + OnesIn(lor) = OnesIn(a) + OnesIn(b) /\ \A k \in 1..Len(a) : lxor[k] = lor[k] - land[k]
Recover == Untangled(weave, 0) = a /\ Untangled(weave, 1) = b /\ Len(weave) = 2 * Len(a) /\ OnesIn(weave) = OnesIn(a) + OnesIn(b)
Distances == BitDistance(a, b) = dist /\ Differing(a, b) = differ /\ BitDistance(b, a) = dist /\ differ <= dist /\ dist <= 8 * differ
Folded == Digest(Seed, [k \in 1..Len(a) |-> <<a[k]>>]) = dig
\* setting then reading
SetRead == Len(a) = 1 => \A k \in 0..7 : \A on \in 0..1 : LET s == SetBit(a, k, on) IN Bit(s[1], k) = on /\ \A j \in (0..7) \ {k} : Bit(s[1], j) = Bit(a[1], j)
\* two-way spreading is the same as interleaving
SpreadIsWeave == Len(a) = 1 => \A k \in 0..15 : (k \in ToSetOf(Spread(a[1], 2)) \/ (k - 1) \in ToSetOf(Spread(b[1], 2))) = (BitsOf(weave)[k + 1] = 1)
Out == /\ PrintT(ToJson([o |-> "combine", i |-> <<a, b, <<7>>>>, r |-> BitsExpected("combine", <<a, b, <<7>>>>)]))
       /\ PrintT(ToJson([o |-> "interleave", i |-> <<a, b, <<7>>>>, r |-> BitsExpected("interleave", <<a, b, <<7>>>>)]))
       /\ PrintT(ToJson([o |-> "distance", i |-> <<a, b>>, r |-> BitsExpected("distance", <<a, b>>)]))
OutDigest == (a = b) => LET es == [k \in 1..Len(a) |-> <<a[k]>>] IN PrintT(ToJson([o |-> "digest", i |-> <<Seed, es>>, r |-> BitsExpected("digest", <<Seed, es>>)]))
=============================================================================
