------------------------------ MODULE KeyValue ------------------------------
(* Key-value parsing: a parser is a set of registrations (key -> variable)  *)
(* and six typed variables (int, string, unsigned short, in rotation).      *)
EXTENDS Parse
Slots == 6
\* the canonical key a key text stands for; <<0, ..>>: no key at all
Lim4 == <<52,50,57,52,57,54,55,50,57,52>>    \* 4294967294
NumKey(t) == LET c == Strip0(t) IN <<B2N(t # <<>> /\ \A k \in 1..Len(t) : IsDigit(t[k])), IF c = <<>> THEN <<48>> ELSE c>>
KeyOf(kind, t) ==
  CASE kind = "str" -> <<1, t>>
    [] kind = "cust" -> <<B2N(t # <<>>), LowerS(t)>>
    [] kind \in {"uint", "ukey"} -> NumKey(t)
Admits(kind, v) == kind = "cust" => ByteSize(v) <= 4
Where(reg, key) == { k \in 1..Len(reg) : reg[k][1] = key }
\* registering again binds the key to the new variable
Register(reg, key, slot) == IF Where(reg, key) = {} THEN Append(reg, <<key, slot>>) ELSE [k \in 1..Len(reg) |-> IF reg[k][1] = key THEN <<key, slot>> ELSE reg[k]]
\* number of an index key below the count given
Small(c, n) == Len(c) <= 6 /\ FoldLeft(LAMBDA a, x : a * 10 + (x - 48), 0, c) < n
SlotType(k) == TypeOf(k)
\* one block: <<status, slot, value>>, status "skip" | "bad" | "put"
BlockIs(kind, reg, blk, pd) ==
  LET e == FirstFrom(0, Len(blk) - 1, LAMBDA q : blk[q + 1] = pd) IN
  IF blk = <<>> THEN <<"skip", 0, <<>>>>
  ELSE IF e = -1 \/ e = Len(blk) - 1 THEN <<"bad", 0, <<>>>>
  ELSE LET v == Sub(blk, e + 1, Len(blk)) key == KeyOf(kind, Sub(blk, 0, e)) w == Where(reg, key[2]) IN
       IF key[1] = 0 \/ ~Admits(kind, v) \/ w = {} THEN <<"bad", 0, <<>>>>
       ELSE LET slot == reg[CHOOSE k \in w : TRUE][2] c == Conv(SlotType(slot), v) IN
            IF c[1] = 0 THEN <<"bad", 0, <<>>>> ELSE <<"put", slot, c[2]>>
\* whole text: <<result, failures, variables>>
RECURSIVE Blocks(_, _, _, _, _, _, _)
Blocks(kind, reg, bs, pd, ign, fails, vs) ==
  IF bs = <<>> THEN <<1, fails, vs>>
  ELSE LET b == BlockIs(kind, reg, bs[1], pd) IN
       CASE b[1] = "skip" -> Blocks(kind, reg, Tail(bs), pd, ign, fails, vs)
         [] b[1] = "put" -> Blocks(kind, reg, Tail(bs), pd, ign, fails, [vs EXCEPT ![b[2]] = b[3]])
         [] b[1] = "bad" -> IF ign = 1 THEN Blocks(kind, reg, Tail(bs), pd, ign, fails + 1, vs) ELSE <<0, fails, vs>>
Pieces(t, bd) == Toks(t, {bd}, 0)
Feed(kind, reg, t, bd, pd, ign, vs) == IF t = <<>> THEN <<ign, 0, vs>> ELSE Blocks(kind, reg, Pieces(t, bd), pd, ign, 0, vs)
None == [k \in 1..Slots |-> Kept]
\* a history of <<"reg", key, slot>> and <<"feed", text, ignore>>
\* the number of failures is that of the last parse that ignored them
RECURSIVE Run(_, _, _, _, _, _)
Run(i, es, reg, vs, fails, out) ==
  IF es = <<>> THEN out
  ELSE LET e == es[1] IN
       IF e[1] = "reg"
       THEN LET key == KeyOf(i[1], e[2]) ok == i[1] # "uint" \/ Small(key[2], i[4]) IN
            Run(i, Tail(es), IF ok THEN Register(reg, key[2], e[3]) ELSE reg, vs, fails, Append(out, <<B2N(ok), fails, vs>>))
       ELSE LET f == Feed(i[1], reg, e[2], i[2], i[3], e[3], vs) n == IF e[3] = 1 THEN f[2] ELSE fails IN
            Run(i, Tail(es), reg, f[3], n, Append(out, <<f[1], n, f[3]>>))
\* a text of n equal pieces, each ending with the block delimiter, and a rest
Bulk(i, u, n, t) == LET a == Run(i, i[5] \o <<<<"feed", u, 1>>>>, <<>>, None, 0, <<>>) b == Run(i, i[5] \o <<<<"feed", u \o t, 1>>>>, <<>>, None, 0, <<>>) IN
  <<1, (n - 1) * a[Len(a)][2] + b[Len(b)][2], b[Len(b)][3]>>
KeyValueExpected(o, i) == CASE o = "kv" -> <<Run(i, i[5], <<>>, None, 0, <<>>)>>
  [] o = "kv_bulk" -> <<Bulk(i, i[6], i[7], i[8])>>
KeyValueConforms(o, i, r) == r = KeyValueExpected(o, i)
=============================================================================
