-------------------------------- MODULE Runs --------------------------------
(* Structured splitting: runs of elements satisfying a predicate, fixed      *)
(* widths, pairs and a few regular expressions.                              *)
EXTENDS Split

\* find types, in the library's order
OfType(t) ==
  CASE t = 0 -> { c \in Byte : IsDigit(c) }
    [] t = 1 -> { c \in Byte : IsUpper(c) \/ IsLower(c) }
    [] t = 2 -> { c \in Byte : IsLower(c) }
    [] t = 3 -> { c \in Byte : IsUpper(c) }
    [] t = 4 -> { c \in Byte : IsUpper(c) \/ IsLower(c) \/ IsDigit(c) }
ClassTab == [t \in 0..4 |-> OfType(t)]

(* scanner: q position, c length of the current run of matching elements    *)
RunInit(from) == [q |-> from, c |-> 0]
RECURSIVE FindExact(_, _, _, _)
FindExact(s, P, n, st) ==           \* earliest n consecutive matches
  IF st.c = n THEN <<st.q - n, st.q>>
  ELSE IF st.q >= Len(s) THEN <<>>
  ELSE FindExact(s, P, n, [q |-> st.q + 1, c |-> IF s[st.q + 1] \in P THEN st.c + 1 ELSE 0])
RECURSIVE FindAtLeast(_, _, _, _)
FindAtLeast(s, P, n, st) ==         \* earliest complete run of length >= n
  IF st.q < Len(s) /\ s[st.q + 1] \in P THEN FindAtLeast(s, P, n, [q |-> st.q + 1, c |-> st.c + 1])
  ELSE IF st.c >= n /\ st.c > 0 THEN <<st.q - st.c, st.q>>
  ELSE IF st.q >= Len(s) THEN <<>>
  ELSE FindAtLeast(s, P, n, [q |-> st.q + 1, c |-> 0])
Find(s, P, n, mode, from) ==
  IF mode = 0 THEN FindExact(s, P, n, RunInit(from)) ELSE FindAtLeast(s, P, n, RunInit(from))
RECURSIVE RunSplit(_, _, _, _, _, _)
RunSplit(s, P, n, mode, from, limit) ==
  IF limit = 0 \/ n = 0 THEN <<>>
  ELSE LET f == Find(s, P, n, mode, from) IN
       IF f = <<>> THEN <<>> ELSE <<f>> \o RunSplit(s, P, n, mode, f[2], limit - 1)
PrefixRun(s, P) == LET e == FirstFrom(0, Len(s) - 1, LAMBDA q : s[q + 1] \notin P) IN IF e = -1 THEN Len(s) ELSE e

\* ---- regular expressions used for binding, by hand-written recognisers
\* each match is a sequence of <<b,e>>: whole, group 1, group 2
RunTo(s, from, P) == LET e == FirstFrom(from, Len(s) - 1, LAMBDA q : s[q + 1] \notin P) IN IF e = -1 THEN Len(s) ELSE e
Rx(s, x, from) ==
  CASE x = 0 ->     \* [0-9]+
         LET b == FirstFrom(from, Len(s) - 1, LAMBDA q : IsDigit(s[q + 1]))
         IN IF b = -1 THEN <<>> ELSE <<<<b, RunTo(s, b, ClassTab[0])>>>>
    [] x = 1 ->     \* \(.*?\)
         LET b == FirstFrom(from, Len(s) - 1, LAMBDA q : s[q + 1] = 40 /\ FirstFrom(q + 1, Len(s) - 1, LAMBDA z : s[z + 1] = 41) # -1)
         IN IF b = -1 THEN <<>> ELSE <<<<b, FirstFrom(b + 1, Len(s) - 1, LAMBDA z : s[z + 1] = 41) + 1>>>>
    [] x = 2 ->     \* ([a-z]+)=([0-9]+)
         LET ok(q) == LET e == RunTo(s, q, ClassTab[2]) IN e > q /\ e + 1 < Len(s) /\ s[e + 1] = 61 /\ IsDigit(s[e + 2])
             b == FirstFrom(from, Len(s) - 1, ok)
         IN IF b = -1 THEN <<>>
            ELSE LET e == RunTo(s, b, ClassTab[2]) z == RunTo(s, e + 1, ClassTab[0])
                 IN <<<<b, z>>, <<b, e>>, <<e + 1, z>>>>
RECURSIVE RxAll(_, _, _, _, _)
RxAll(s, x, g, from, limit) ==
  IF limit = 0 THEN <<>>
  ELSE LET m == Rx(s, x, from) IN IF m = <<>> THEN <<>> ELSE <<m[g + 1]>> \o RxAll(s, x, g, m[1][2], limit - 1)

Periodic(u, n, rs) == <<rs, [k \in 1..Len(rs) |-> Sub(u, rs[k][1], rs[k][2])], n>>
RunsExpected(o, i) ==
  CASE o = "runs_find"  -> <<Find(i[1], ClassTab[i[2]], i[4], i[3], 0)>>
    [] o = "runs_match" -> <<B2N(PrefixRun(i[1], ClassTab[i[2]]) >= i[4])>>
    [] o = "runs_split" -> RangeAndText(i[1], RunSplit(i[1], ClassTab[i[2]], i[4], i[3], 0, 100000))
    [] o = "runs_split_n" -> RangeAndText(i[1], RunSplit(i[1], ClassTab[i[2]], i[5], i[3], 0, i[4]))
    [] o = "runs_pred"  -> RangeAndText(i[1], RunSplit(i[1], ToSetOf(i[2]), i[3], 0, 0, 100000))
    [] o = "runs_pred_n" -> RangeAndText(i[1], RunSplit(i[1], ToSetOf(i[2]), i[4], 0, 0, i[3]))
    [] o = "char_class" -> <<[t \in 1..6 |-> B2N(IF t = 6 THEN IsDigit(i[1][1]) \/ i[1][1] \in 65..70 \/ i[1][1] \in 97..102 ELSE i[1][1] \in ClassTab[t - 1])]>>
    [] o = "regex"      -> RangeAndText(i[1], RxAll(i[1], i[2], i[3], 0, 100000))
    [] o = "regex_n"    -> RangeAndText(i[1], RxAll(i[1], i[2], i[3], 0, i[4]))
    \* a text that repeats, ending in a byte no run contains: what is found repeats
    [] o = "runs_split_bulk" -> Periodic(i[1], i[2], RunSplit(i[1], ClassTab[i[3]], i[5], i[4], 0, 100000))
    [] o = "runs_pred_bulk" -> Periodic(i[1], i[2], RunSplit(i[1], ToSetOf(i[3]), i[4], 0, 0, 100000))
    [] o = "regex_bulk" -> Periodic(i[1], i[2], RxAll(i[1], i[3], i[4], 0, 100000))
    [] o = "runs_find_bulk" -> LET f == Find(i[1], ClassTab[i[4]], i[6], i[5], 0) g == Find(i[3], ClassTab[i[4]], i[6], i[5], 0)
         IN <<IF f # <<>> THEN f ELSE IF g = <<>> THEN <<>> ELSE <<g[1] + i[2] * Len(i[1]), g[2] + i[2] * Len(i[1])>>>>
    [] o = "runs_match_bulk" -> <<B2N(LET p == PrefixRun(i[1], ClassTab[i[3]]) IN (IF p = Len(i[1]) THEN p * i[2] ELSE p) >= i[5])>>
    [] o = "offset_bulk" -> Periodic(i[1], i[2], OffSplit(Len(i[1]), 0, i[3], 1, TRUE))
    [] o = "pair_bulk" -> LET p == PairSplit(i[3], ToSetOf(i[4])) q == PairSplit(i[1], ToSetOf(i[4])) d == i[2] * Len(i[1])
         IN <<IF q # <<>> \/ p = <<>> THEN <<>> ELSE <<<<0, p[1][2] + d>>, <<p[2][1] + d, p[2][2] + d>>>>>>
    [] OTHER            -> SplitExpected(o, i)
RunsConforms(o, i, r) == r = RunsExpected(o, i)
=============================================================================
