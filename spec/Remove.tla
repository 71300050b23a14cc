------------------------------- MODULE Remove -------------------------------
(* Which elements a removal rule names; the result is everything else.       *)
EXTENDS Bytes
\* D: elements satisfying the predicate, as a set.  x: index list for "index".
Named(rule, s, D, x, k) ==
  CASE rule = "pred"  -> s[k] \in D
    [] rule = "lead"  -> \A j \in 1..k : s[j] \in D
    [] rule = "trail" -> \A j \in k..Len(s) : s[j] \in D
    [] rule = "both"  -> (\A j \in 1..k : s[j] \in D) \/ (\A j \in k..Len(s) : s[j] \in D)
    [] rule = "consp" -> k > 1 /\ s[k] \in D /\ s[k - 1] \in D
    [] rule = "conse" -> k > 1 /\ s[k] = s[k - 1]
    [] rule = "dups"  -> \E j \in 1..(k - 1) : s[j] = s[k]
    [] rule = "index" -> (k - 1) \in x
Rules == {"pred", "lead", "trail", "both", "consp", "conse", "dups", "index"}
KeptIdx(rule, s, D, x) == SelectSeq([k \in 1..Len(s) |-> k], LAMBDA k : ~Named(rule, s, D, x, k))
Kept(rule, s, D, x) == LET ix == KeptIdx(rule, s, D, x) IN [n \in 1..Len(ix) |-> s[ix[n]]]
Outcome(rule, s, D, x) == LET r == Kept(rule, s, D, x) IN <<r, ByteSize(s) - ByteSize(r)>>
\* the same over many copies of a piece.  Elements at the joints are independent: the piece begins with an element that is
\* outside D and differs from its last; for the ends the piece lies within D and v begins and ends outside
RmBulk(rule, u, D, x, n, v) ==
  CASE rule = "lead" -> <<n * Len(u), v, Packed(u, n)>>
    [] rule = "trail" -> <<n * Len(u), PackedThen(u, n, v)>>
    [] rule = "both" -> <<2 * n * Len(u), v>>
    [] rule = "dups" -> LET k == Kept("dups", u \o v, D, x) IN <<n * Len(u) + Len(v) - Len(k), k>>
    [] OTHER -> LET k == Kept(rule, u, D, x) IN <<n * (Len(u) - Len(k)), Packed(k, n)>>
RemoveExpected(o, i) ==
  CASE o = "rm" -> <<Outcome(i[1], i[2], ToSetOf(i[3]), ToSetOf(i[4]))>>
    [] o = "rm_bulk" -> RmBulk(i[1], i[2], ToSetOf(i[3]), ToSetOf(i[4]), i[5], i[6])
    [] o = "rm_ints" -> <<Outcome(i[1], i[2], ToSetOf(i[3]), ToSetOf(i[4]))>>
    [] o = "rm_empty" -> <<Keep(i[1], LAMBDA t : t # <<>>)>>
    [] o = "rm_empty_set" -> <<ToSetOf(Keep(i[1], LAMBDA t : t # <<>>))>>
RemoveConforms(o, i, r) ==
  IF o = "rm_empty_set" THEN Len(r) = 1 /\ {ToSetOf(r[1])} = ToSetOf(RemoveExpected(o, i))
  ELSE r = RemoveExpected(o, i)
=============================================================================
