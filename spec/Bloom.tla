-------------------------------- MODULE Bloom --------------------------------
(* Bloom filters.  A configuration gives a table of bits and, for every     *)
(* item, the bits the item occupies (read from a filter that holds only     *)
(* that item).  Everything else follows: a filter is its bits, the list of  *)
(* sizes it was compressed to, and the number of insertions.                *)
EXTENDS Bytes
\* configuration <<min bits, max bits (0: none), min hashes, max hashes, elements, probability ppm, seed>>
CfgValid(c) == c[1] <= (IF c[2] = 0 THEN 2147483647 ELSE c[2]) /\ c[3] <= c[4] /\ c[3] >= 1 /\ c[5] > 0 /\ c[6] > 0 /\ c[6] <= 1000000 /\ c[7] # 0
\* meta <<valid, bits in the table, hashes, bits of each item>>
CfgRight(c, m, items) ==
  /\ m[1] = B2N(CfgValid(c))
  /\ m[1] = 1 => /\ m[2] >= c[1] /\ (c[2] # 0 => m[2] <= c[2]) /\ m[2] >= 1
                 /\ m[3] >= c[3] /\ m[3] <= c[4]
                 /\ Len(m[4]) = items
                 /\ \A x \in 1..items : /\ Len(m[4][x]) >= 1 /\ Len(m[4][x]) <= m[3]
                                        /\ \A b \in ToSetOf(m[4][x]) : b >= 0 /\ b < m[2]
None == [c |-> 0, z |-> <<>>, b |-> {}, n |-> 0, d |-> <<>>]
Fresh(k, cs) == [c |-> k, z |-> <<>>, b |-> {}, n |-> 0, d |-> <<cs[k][6]>>]
SizeOf(f, ms) == IF f.c = 0 THEN 0 ELSE IF f.z = <<>> THEN ms[f.c][2] ELSE f.z[Len(f.z)]
RECURSIVE Fold(_, _)
Fold(h, z) == IF z = <<>> THEN h ELSE Fold(h % z[1], Tail(z))
BitsOf(f, x, ms) == { Fold(h, f.z) : h \in ToSetOf(ms[f.c][4][x]) }
Has(f, x, ms) == f.c # 0 /\ BitsOf(f, x, ms) \subseteq f.b
Put(f, x, ms) == [f EXCEPT !.b = @ \cup BitsOf(f, x, ms), !.n = @ + 1]
RECURSIVE PutAll(_, _, _)
PutAll(f, xs, ms) == IF xs = <<>> THEN f ELSE PutAll(Put(f, xs[1], ms), Tail(xs), ms)
\* two filters can be combined when they agree on what a bit means
Mates(f, g, cs, ms) == f.c # 0 /\ g.c # 0 /\ f.z = g.z /\ ms[f.c][2] = ms[g.c][2] /\ ms[f.c][3] = ms[g.c][3] /\ cs[f.c][7] = cs[g.c][7]
Combine(w, f, g, cs, ms) ==
  IF ~Mates(f, g, cs, ms) THEN f
  ELSE [f EXCEPT !.b = CASE w = "and" -> @ \cap g.b [] w = "or" -> @ \cup g.b [] w = "xor" -> (@ \ g.b) \cup (g.b \ @)]
\* compression by p tenths of a percent: the size shrinks to a multiple of eight bits
ZipSizes(s, p) ==
  IF p <= 0 \/ p >= 1000 THEN {s}
  ELSE LET q == (s * (1000 - p)) \div 1000
           cand == {q} \cup (IF (s * (1000 - p)) % 1000 = 0 /\ q > 0 THEN {q - 1} ELSE {})
           new == { x - (x % 8) : x \in cand }
       IN { IF x < 8 \/ x >= s THEN s ELSE x : x \in new }
Shrink(f, new, ms) == IF new = SizeOf(f, ms) THEN f
                   ELSE [f EXCEPT !.z = Append(@, new), !.b = { h % new : h \in @ },
                                  !.d = IF f.n = 0 THEN <<0>> ELSE <<f.n, SizeOf(f, ms), ms[f.c][3]>>]
\* the same filter to an observer
Same(f, g, cs, ms) == /\ (f.c = 0) = (g.c = 0)
                      /\ f.c # 0 => /\ f.z = g.z /\ f.b = g.b /\ f.n = g.n /\ f.d = g.d
                                    /\ SubSeq(cs[f.c], 5, 5) = SubSeq(cs[g.c], 5, 5) /\ cs[f.c][7] = cs[g.c][7]
                                    /\ ms[f.c][2] = ms[g.c][2] /\ ms[f.c][3] = ms[g.c][3]
\* events: the state after e, and the value it returns; new is the size seen after a compression
Step(s, e, cs, ms, new) ==
  CASE e[1] = "new" -> [s EXCEPT ![e[2]] = Fresh(e[3], cs)]
    [] e[1] = "def" -> [s EXCEPT ![e[2]] = None]
    [] e[1] = "ins" -> [s EXCEPT ![e[2]] = Put(@, e[3], ms)]
    [] e[1] = "rng" -> [s EXCEPT ![e[2]] = PutAll(@, e[3], ms)]
    [] e[1] = "cpy" -> [s EXCEPT ![e[3]] = s[e[2]]]
    [] e[1] = "asg" -> [s EXCEPT ![e[3]] = s[e[2]]]
    [] e[1] \in {"and", "or", "xor"} -> [s EXCEPT ![e[2]] = Combine(e[1], s[e[2]], s[e[3]], cs, ms)]
    [] e[1] = "bin" -> [s EXCEPT ![e[5]] = Combine(e[2], s[e[3]], s[e[4]], cs, ms)]
    [] e[1] = "clr" -> [s EXCEPT ![e[2]].b = {}, ![e[2]].n = 0]
    [] e[1] = "zip" -> [s EXCEPT ![e[2]] = Shrink(@, new, ms)]
    [] e[1] = "sav" -> IF s[e[2]].c = 0 THEN s ELSE [s EXCEPT ![e[3]] = s[e[2]]]
    [] e[1] = "cut" -> IF s[e[2]].c = 0 THEN s ELSE [s EXCEPT ![e[3]] = None]
    [] e[1] = "mis" -> s
Return(s, e, ms, new) ==
  CASE e[1] = "zip" -> B2N(new # SizeOf(s[e[2]], ms))
    [] e[1] = "sav" -> B2N(s[e[2]].c # 0)
    [] e[1] \in {"cut", "mis"} -> 0
    [] OTHER -> 1
Ascending(b) == SetToSortSeq(b, LAMBDA x, y : x < y)
FirstWith(f, from, to, want, ms) == LET q == FirstFrom(from, to, LAMBDA x : Has(f, x, ms) = want) IN IF q < 0 THEN to + 1 ELSE q
View(f, items, ms) == IF f.c = 0 THEN <<0, 0, f.n, 0, <<>>, <<>>, 0, 0>>
  ELSE <<1, SizeOf(f, ms), f.n, ms[f.c][3], Ascending(f.b), [x \in 1..items |-> B2N(Has(f, x, ms))],
         FirstWith(f, 1, items, FALSE, ms), FirstWith(f, 1, items, TRUE, ms)>>
See(s, items, cs, ms) == <<[k \in 1..3 |-> View(s[k], items, ms)], [k \in 1..9 |-> B2N(Same(s[1 + ((k - 1) \div 3)], s[1 + ((k - 1) % 3)], cs, ms))]>>
\* the recovered insertion count, from the effective false positive probability
FppRight(s, fs, ms) == \A k \in 1..3 : (s[k].c # 0 /\ s[k].n * ms[s[k].c][3] < 3 * SizeOf(s[k], ms)) => fs[k] = s[k].n
RECURSIVE PlayOK(_, _, _, _, _, _)
PlayOK(s, es, os, items, cs, ms) ==
  IF es = <<>> THEN os = <<>>
  ELSE LET e == es[1]
           o == os[1]
           new == IF e[1] = "zip" THEN o[2][e[2]][2] ELSE 0
           n == Step(s, e, cs, ms, new)
       IN /\ e[1] = "zip" => new \in ZipSizes(SizeOf(s[e[2]], ms), e[3])
          /\ o[1] = Return(s, e, ms, new)
          /\ <<o[2], o[3]>> = See(n, items, cs, ms)
          /\ FppRight(n, o[4], ms)
          /\ PlayOK(n, Tail(es), Tail(os), items, cs, ms)
\* many insertions: <<valid, bits, hashes, elements, missing, foreign elements reported in 1000>>
ManyOK(c, r) == /\ r[1] = 1 /\ r[5] = 0 /\ r[4] = c[5]
                /\ (c[1] <= 1 /\ c[2] = 0) => r[2] % 8 = 0
                /\ (c[1] <= 1 /\ c[2] = 0 /\ c[3] = 1 /\ c[4] > 100) => r[6] * 1000 <= 4 * c[6] + 20000
BloomConforms(o, i, r) ==
  CASE o = "bloom" -> /\ Len(r[1]) = Len(i[1])
                      /\ \A k \in 1..Len(i[1]) : CfgRight(i[1][k], r[1][k], Len(i[2]))
                      /\ PlayOK(<<None, None, None>>, i[3], r[2], Len(i[2]), i[1], r[1])
    [] o = "many" -> ManyOK(i[1], r)
BloomExpected(o, i) == <<>>
=============================================================================
