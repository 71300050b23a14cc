------------------------------- MODULE Search -------------------------------
(* Wildcard membership, occurrence search, affix tests and replacement.      *)
EXTENDS Bytes
\* some expansion of pattern p equals s, with wildcards st (any run) and qm (at most one element)
RECURSIVE Matches(_, _, _, _)
Matches(p, s, st, qm) ==
  IF p = <<>> THEN s = <<>>
  ELSE IF p[1] = st THEN Matches(Tail(p), s, st, qm) \/ (s # <<>> /\ Matches(p, Tail(s), st, qm))
  ELSE IF p[1] = qm THEN Matches(Tail(p), s, st, qm) \/ (s # <<>> /\ Matches(Tail(p), Tail(s), st, qm))
  ELSE s # <<>> /\ p[1] = s[1] /\ Matches(Tail(p), Tail(s), st, qm)
\* the same relation, tabulated: reachable pattern positions after each element (cheap on long inputs)
Eps(p, S, st, qm) == { k \in 0..Len(p) : \E j \in S : j <= k /\ \A t \in (j + 1)..k : p[t] \in {st, qm} }
Delta(p, S, c, st, qm) == { k \in 0..Len(p) : \/ (k \in S /\ k < Len(p) /\ p[k + 1] = st)
                                            \/ (k > 0 /\ (k - 1) \in S /\ (p[k] = qm \/ (p[k] # st /\ p[k] = c))) }
RECURSIVE Run(_, _, _, _, _)
Run(p, s, S, st, qm) == IF s = <<>> THEN S ELSE Run(p, Tail(s), Eps(p, Delta(p, S, s[1], st, qm), st, qm), st, qm)
Accepts(p, s, st, qm) == Len(p) \in Run(p, s, Eps(p, {0}, st, qm), st, qm)

\* leftmost non-overlapping occurrences, 0-based
RECURSIVE OccFrom(_, _, _)
OccFrom(p, s, k) == IF k + Len(p) > Len(s) THEN <<>>
                    ELSE IF OccursAt(p, s, k) THEN <<k>> \o OccFrom(p, s, k + Len(p)) ELSE OccFrom(p, s, k + 1)
Occ(p, s) == IF p = <<>> THEN <<>> ELSE OccFrom(p, s, 0)
FirstOcc(p, s) == IF Occ(p, s) = <<>> THEN -1 ELSE Occ(p, s)[1]
RECURSIVE Subst(_, _, _, _, _)
Subst(s, n, r, occ, from) == IF occ = <<>> THEN Sub(s, from, Len(s))
                             ELSE Sub(s, from, occ[1]) \o r \o Subst(s, n, r, Tail(occ), occ[1] + n)
Replace(s, p, r) == Subst(s, Len(p), r, Occ(p, s), 0)
ReplaceChar(s, a, b) == [k \in 1..Len(s) |-> IF s[k] = a THEN b ELSE s[k]]
FindAll(p, s) ==
  LET P == LowerS(p) S == LowerS(s) IN
  <<Occ(p, s), Occ(P, S), B2N(StartsWith(p, s)), B2N(StartsWith(P, S)), B2N(EndsWith(p, s)), B2N(EndsWith(P, S)), FirstOcc(p, s), FirstOcc(P, S)>>
Within(p, s) == \E k \in 0..Len(s) : OccursAt(p, s, k)
\* the seven tests a condition can stand for
Conditions(p, s) == <<B2N(p = s), B2N(p # s), B2N(Accepts(p, s, 42, 63)), B2N(StartsWith(p, s)), B2N(EndsWith(p, s)), B2N(Within(p, s)), B2N(~Within(p, s))>>
\* many copies of a piece u, then a tail t.  The last letter of u does not occur in p: no occurrence spans two copies
FindBulk(p, u, n, t) ==
  LET P == LowerS(p) U == LowerS(u) T == LowerS(t)
      Occs(a, b, c) == <<1, IF Occ(a, b) = <<>> THEN <<>> ELSE Packed(Occ(a, b), n), Occ(a, c)>>
      First(a, b, c) == IF Occ(a, b) # <<>> THEN Occ(a, b)[1] ELSE IF Occ(a, c) # <<>> THEN n * Len(u) + Occ(a, c)[1] ELSE -1
  IN <<Occs(p, u, t), Occs(P, U, T), B2N(StartsWith(p, u \o t)), B2N(StartsWith(P, U \o T)), B2N(EndsWith(p, u \o t)), B2N(EndsWith(P, U \o T)), First(p, u, t), First(P, U, T)>>
\* the pattern is short and starts with a run of anything, or is a few copies of u up to one: two copies answer as many do
MatchBulk(p, u, n, t) == <<B2N(Accepts(p, u \o u \o t, 42, 63)), 1, 0>>
SearchExpected(o, i) ==
  CASE o = "match" -> <<B2N(Accepts(i[1], i[2], 42, 63))>>
    [] o = "find_bulk" -> FindBulk(i[1], i[2], i[3], i[4])
    [] o = "match_bulk" -> MatchBulk(i[1], i[2], i[3], i[4])
    [] o = "replace_bulk" -> LET a == Replace(i[2], i[1], i[5]) b == Replace(i[4], i[1], i[5]) IN <<i[3] * Len(a) + Len(b), PackedThen(a, i[3], b)>>
    [] o = "match_w" -> <<B2N(Accepts(i[1], i[2], i[3], i[4]))>>
    [] o = "find" -> <<FindAll(i[1], i[2])>>
    [] o = "imatch" -> <<B2N(LowerS(i[1]) = LowerS(i[2]))>>
    [] o = "imatch_in" -> <<FirstFrom(0, Len(i[2]) - 1, LAMBDA k : LowerS(i[2][k + 1]) = LowerS(i[1]))>>
    [] o = "condition" -> <<Conditions(i[1], i[2])>>
    [] o = "replace" -> <<LET t == Replace(i[1], i[2], i[3]) IN <<t, ByteSize(t)>>>>
    [] o = "replace_char" -> <<ReplaceChar(i[1], i[2], i[3])>>
    [] o = "sort" -> <<SortSeq(i[1], <)>>
SearchConforms(o, i, r) == r = SearchExpected(o, i)
=============================================================================
