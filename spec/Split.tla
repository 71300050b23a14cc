------------------------------- MODULE Split -------------------------------
(* The delimiter splitter as a scanner.                                     *)
(*   State:  p   read position, b  start of the current token, out  tokens  *)
(*           emitted so far as 0-based half open offsets, fin.              *)
(*   cfg :   s the text, D the delimiter set, opt the option bits           *)
(*           (1 compress, 2 include first delimiter, 4 include the run).    *)
EXTENDS Bytes

Has(opt, bit) == (opt \div bit) % 2 = 1
Compress(opt) == Has(opt, 1)
Incl1(opt) == Has(opt, 2)
InclRun(opt) == Has(opt, 4) /\ ~Incl1(opt)

ScanInit == [p |-> 0, b |-> 0, out |-> <<>>, fin |-> FALSE]
At(cfg, q) == q < Len(cfg.s) /\ cfg.s[q + 1] \in cfg.D
RECURSIVE RunEnd(_, _)
RunEnd(cfg, q) == IF At(cfg, q) THEN RunEnd(cfg, q + 1) ELSE q

\* one transition of the scanner
ScanPlain(cfg, st) == [st EXCEPT !.p = @ + 1]
ScanDelim(cfg, st) ==
  LET run == RunEnd(cfg, st.p)
      tokEnd == IF Incl1(cfg.opt) THEN st.p + 1 ELSE IF InclRun(cfg.opt) THEN run ELSE st.p
      next == IF Compress(cfg.opt) \/ InclRun(cfg.opt) THEN run ELSE st.p + 1
  IN [st EXCEPT !.out = Append(@, <<st.b, tokEnd>>), !.p = next, !.b = next]
ScanEnd(cfg, st) ==
  LET n == Len(cfg.s)
      tail == n > 0 /\ (st.b # n \/ cfg.s[n] \in cfg.D)
  IN [st EXCEPT !.out = IF tail THEN Append(@, <<st.b, n>>) ELSE @, !.fin = TRUE]
ScanStep(cfg, st) ==
  IF st.p >= Len(cfg.s) THEN ScanEnd(cfg, st)
  ELSE IF At(cfg, st.p) THEN ScanDelim(cfg, st) ELSE ScanPlain(cfg, st)
RECURSIVE Scan(_, _)
Scan(cfg, st) == IF st.fin THEN st ELSE Scan(cfg, ScanStep(cfg, st))

Tokens(s, D, opt) == Scan([s |-> s, D |-> D, opt |-> opt], ScanInit).out
FirstN(ts, n) == SubSeq(ts, 1, Min2(n, Len(ts)))
Texts(s, ts) == [k \in 1..Len(ts) |-> Sub(s, ts[k][1], ts[k][2])]

\* ---- fixed width splitting: offsets consumed in turn, optionally rotating
RECURSIVE OffSplit(_, _, _, _, _)
OffSplit(n, pos, offs, k, rot) ==
  IF pos >= n THEN <<>>
  ELSE LET j == IF rot THEN ((k - 1) % Len(offs)) + 1 ELSE k IN
       IF j > Len(offs) THEN <<>>
       ELSE IF offs[j] <= 0 THEN <<>>
       ELSE LET e == Min2(n, pos + offs[j]) IN <<<<pos, e>>>> \o OffSplit(n, e, offs, k + 1, rot)

\* ---- pair splitting: at the first delimiter, second part not empty
PairSplit(s, D) ==
  LET d == FirstFrom(0, Len(s) - 1, LAMBDA q : s[q + 1] \in D)
  IN IF d = -1 \/ d = Len(s) - 1 THEN <<>> ELSE <<<<0, d>>, <<d + 1, Len(s)>>>>

(* ---- a history of calls on two tokenizers and two of their iterators      *)
(* State: t the tokenizers [x text, o option], it the iterators [x, o, k]      *)
(* (k the token the iterator is at).  An iterator keeps the text and option it *)
(* was made with; assigning a text to a tokenizer keeps its option; assigning  *)
(* a tokenizer takes over both.                                               *)
TokInit(o1, o2) == [t |-> <<[x |-> 1, o |-> o1], [x |-> 1, o |-> o2]>>,
                    it |-> <<[x |-> 1, o |-> o1, k |-> 1], [x |-> 1, o |-> o2, k |-> 1]>>]
TokStep(st, e) ==
  CASE e[1] = 1 -> [st EXCEPT !.t[e[2]].x = e[3]]
    [] e[1] = 2 -> [st EXCEPT !.t[e[2]] = st.t[3 - e[2]]]
    [] e[1] = 3 -> [st EXCEPT !.it[e[2]] = [x |-> st.t[e[3]].x, o |-> st.t[e[3]].o, k |-> 1]]
    [] e[1] = 4 -> [st EXCEPT !.it[e[2]].k = @ + e[3]]
    [] e[1] = 5 -> [st EXCEPT !.it[e[2]] = st.it[3 - e[2]]]
    [] OTHER -> st
\* what the call lets the caller see: 6 all tokens of a tokenizer, 7 the token an
\* iterator is at and the text from there on, <<>> at the end
TokSee(texts, D, st, e) ==
  CASE e[1] = 6 -> Tokens(texts[st.t[e[2]].x], D, st.t[e[2]].o)
    [] e[1] = 7 -> LET i == st.it[e[2]] ts == Tokens(texts[i.x], D, i.o) IN
                   IF i.k > Len(ts) THEN <<>> ELSE <<ts[i.k], <<ts[i.k][1], Len(texts[i.x])>>>>
    [] OTHER -> <<>>
RECURSIVE TokRun(_, _, _, _, _)
TokRun(texts, D, st, es, n) ==
  IF n > Len(es) THEN <<>>
  ELSE <<TokSee(texts, D, st, es[n])>> \o TokRun(texts, D, TokStep(st, es[n]), es, n + 1)
\* ---- one offset predicate used for several texts: it goes on where it stopped
\* unless it is reset (e = <<text>> or <<>> for a reset); a predicate that does not
\* rotate and is used up must be reset first, so a history stops there
RECURSIVE OffUsed(_, _, _, _, _)
OffUsed(n, pos, offs, k, rot) ==
  IF pos >= n THEN k
  ELSE LET j == IF rot THEN ((k - 1) % Len(offs)) + 1 ELSE k IN
       IF j > Len(offs) THEN k + 1 ELSE IF offs[j] <= 0 THEN k + 1 ELSE OffUsed(n, Min2(n, pos + offs[j]), offs, k + 1, rot)
RECURSIVE OffRun(_, _, _, _, _)
OffRun(es, offs, rot, k, n) ==
  IF n > Len(es) THEN <<>>
  ELSE IF es[n] = <<>> THEN <<<<>>>> \o OffRun(es, offs, rot, 1, n + 1)
  ELSE IF ~rot /\ k > Len(offs) + 1 THEN <<<<>>>> \o OffRun(es, offs, rot, k, n + 1)
  ELSE LET x == es[n][1] IN
       <<OffSplit(Len(x), 0, offs, k, rot)>> \o OffRun(es, offs, rot, OffUsed(Len(x), 0, offs, k, rot), n + 1)

(* ------------------------- recorded calls ------------------------------ *)
\* in = <<text, delimiters, option>>
RangeAndText(s, ts) == <<<<ts>>, <<Texts(s, ts)>>, <<Len(ts)>>>>
\* a piece that begins with no delimiter and ends with one, n times over
Bulk(u, n, D, opt) == LET ts == Texts(u, Tokens(u, D, opt)) IN
  <<n * (Len(ts) - 1) + 1, Packed(Cat([k \in 1..(Len(ts) - 1) |-> ts[k] \o <<124>>]), n), ts[Len(ts)]>>
SplitExpected(o, i) ==
  CASE o = "split"   -> RangeAndText(i[1], Tokens(i[1], ToSetOf(i[2]), i[3]))
    [] o = "tokenizer" -> RangeAndText(i[1], Tokens(i[1], ToSetOf(i[2]), i[3]))
    [] o = "split_n" -> RangeAndText(i[1], FirstN(Tokens(i[1], ToSetOf(i[2]), i[3]), i[4]))
    [] o = "offset"  -> RangeAndText(i[1], OffSplit(Len(i[1]), 0, i[2], 1, i[3] = 1))
    [] o = "tok_hist" -> TokRun(i[3], ToSetOf(i[1]), TokInit(i[2][1], i[2][2]), i[4], 1)
    [] o = "offset_hist" -> OffRun(i[3], i[1], i[2] = 1, 1, 1)
    [] o = "split_pair" -> <<PairSplit(i[1], ToSetOf(i[2]))>>
    [] o = "bulk" -> Bulk(i[1], i[2], ToSetOf(i[3]), i[4])
    [] o = "predicate" -> <<[k \in 1..256 |-> B2N((k - 1) \in ToSetOf(i[1]))]>>
SplitConforms(o, i, r) == r = SplitExpected(o, i)
=============================================================================
