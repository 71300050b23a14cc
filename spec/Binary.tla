-------------------------------- MODULE Binary --------------------------------
(* Binary serialisation into a buffer of fixed capacity.  A value is given  *)
(* by its bytes in native (little endian) order; a type says how a value is *)
(* laid out and how it is read back.                                        *)
EXTENDS Bytes
Num(w) == <<"n", w>>
Big(w) == <<"be", w>>
Str(w) == <<"s", w>>
SeqT(k, t) == <<"q", k, t>>
Prod(ts) == <<"p", ts>>
Record == Prod(<<Num(4), Str(4), SeqT("v", Num(2)), Prod(<<Num(1), Str(4)>>)>>)
TypeOf(n) ==
  CASE n \in {"u8", "i8", "c"} -> Num(1)
    [] n \in {"i16", "u16", "l16"} -> Num(2)
    [] n \in {"i32", "u32", "f32", "l32", "fix2"} -> Num(4)
    [] n \in {"i64", "u64", "f64", "l64", "fix4"} -> Num(8)
    [] n \in {"b16", "bi16"} -> Big(2) [] n \in {"b32", "bi32"} -> Big(4) [] n \in {"b64", "bi64"} -> Big(8)
    [] n = "str" -> Str(4) [] n = "sst" -> Str(2) [] n = "pst" -> Str(1)
    [] n \in {"vu16", "raw", "raw8"} -> SeqT("v", Num(2)) [] n = "vf64" -> SeqT("v", Num(8)) [] n = "vstr" -> SeqT("v", Str(4))
    [] n = "du32" -> SeqT("v", Num(4)) [] n = "dstr" -> SeqT("v", Str(4)) [] n = "lstr" -> SeqT("v", Str(4)) [] n = "lu8" -> SeqT("v", Num(1))
    [] n = "su16" -> SeqT("set", Num(2)) [] n = "sstr" -> SeqT("set", Str(4)) [] n = "mu8" -> SeqT("mset", Num(1)) [] n = "mstr" -> SeqT("mset", Str(4))
    [] n = "pair" -> Prod(<<Num(4), Str(4)>>) [] n = "vpair" -> SeqT("v", Prod(<<Num(1), Str(4)>>))
    [] n = "rec" -> Record [] n = "vrec" -> SeqT("v", Record) [] n = "vvu16" -> SeqT("v", SeqT("v", Num(2)))
    [] n = "arr" -> Num(6) [] n = "arrn" -> Prod(<<Num(8), Num(6)>>)
RECURSIVE LE(_, _)
LE(x, w) == IF w = 0 THEN <<>> ELSE <<x % 256>> \o LE(x \div 256, w - 1)
\* the number in little endian bytes; everything too large for any buffer is one number
Big2 == 1000000
RECURSIVE FromLE(_)
FromLE(b) == IF b = <<>> THEN 0 ELSE LET h == FromLE(Tail(b)) IN IF h >= 3000 THEN Big2 ELSE (b[1] + 256 * h)
ItemLT(t, a, b) == IF t[1] = "n" THEN LexLT(Rev(a), Rev(b)) ELSE LexLT(a, b)
InOrder(k, t, v) == CASE k = "v" -> v
                      [] k = "set" -> SetToSortSeq(ToSetOf(v), LAMBDA a, b : ItemLT(t, a, b))
                      [] k = "mset" -> SortSeq(v, LAMBDA a, b : ItemLT(t, a, b))
\* the parts a value is written in
RECURSIVE Parts(_, _)
Parts(t, v) == CASE t[1] = "n" -> <<v>>
                 [] t[1] = "be" -> <<Rev(v)>>
                 [] t[1] = "s" -> <<LE(Len(v), t[2]), v>>
                 [] t[1] = "q" -> LET s == InOrder(t[2], t[3], v) IN <<LE(Len(s), 4)>> \o Cat([x \in 1..Len(s) |-> Parts(t[3], s[x])])
                 [] t[1] = "p" -> Cat([x \in 1..Len(v) |-> Parts(t[2][x], v[x])])
RECURSIVE Writable(_, _)
Writable(t, v) == IF t[1] = "s" /\ t[2] = 1 THEN Len(v) < 256 ELSE TRUE
\* reading: <<TRUE, value, bytes used>> or <<FALSE>>
No == <<FALSE, <<>>, 0>>
RECURSIVE Decode(_, _), DecodeN(_, _, _, _, _), DecodeP(_, _, _, _)
DecodeN(n, t, b, acc, used) == IF n = 0 THEN <<TRUE, acc, used>>
  ELSE IF n > Len(b) - used THEN No
  ELSE LET d == Decode(t, SubSeq(b, used + 1, Len(b))) IN IF ~d[1] THEN No ELSE DecodeN(n - 1, t, b, Append(acc, d[2]), used + d[3])
DecodeP(ts, b, acc, used) == IF ts = <<>> THEN <<TRUE, acc, used>>
  ELSE LET d == Decode(ts[1], SubSeq(b, used + 1, Len(b))) IN IF ~d[1] THEN No ELSE DecodeP(Tail(ts), b, Append(acc, d[2]), used + d[3])
Decode(t, b) ==
  CASE t[1] = "n" -> IF Len(b) < t[2] THEN No ELSE <<TRUE, SubSeq(b, 1, t[2]), t[2]>>
    [] t[1] = "be" -> IF Len(b) < t[2] THEN No ELSE <<TRUE, Rev(SubSeq(b, 1, t[2])), t[2]>>
    [] t[1] = "s" -> IF Len(b) < t[2] THEN No
                     ELSE LET n == FromLE(SubSeq(b, 1, t[2])) IN IF Len(b) < t[2] + n THEN No ELSE <<TRUE, SubSeq(b, t[2] + 1, t[2] + n), t[2] + n>>
    [] t[1] = "q" -> IF Len(b) < 4 THEN No
                     ELSE LET d == DecodeN(FromLE(SubSeq(b, 1, 4)), t[3], b, <<>>, 4) IN IF ~d[1] THEN No ELSE <<TRUE, InOrder(t[2], t[3], d[2]), d[3]>>
    [] t[1] = "p" -> DecodeP(t[2], b, <<>>, 0)
Whole(t) == t[1] \in {"n", "be"}
Over(buf, pos, bs) == [k \in 1..Len(buf) |-> IF k > pos /\ k <= pos + Len(bs) THEN bs[k - pos] ELSE buf[k]]
\* positions a failed write may stop at
RECURSIVE Stops(_, _, _)
Stops(ps, pos, cap) == {pos} \cup (IF ps = <<>> \/ pos + Len(ps[1]) > cap THEN {} ELSE Stops(Tail(ps), pos + Len(ps[1]), cap))
\* padded text fields
Padded(v, n, right, pad) == IF right = 1 THEN v \o Rep(pad, n - Len(v)) ELSE Rep(pad, n - Len(v)) \o v
Zeros(n) == Rep(0, n)
\* state: buf, writer position, reader position, marks of both, file
Start(cap, fill) == [buf |-> Rep(fill, cap), w |-> 0, r |-> 0, wm |-> <<>>, rm |-> <<>>, file |-> <<>>]
Rest(st) == SubSeq(st.buf, st.r + 1, Len(st.buf))
Fill(st, n) == Over(st.buf, 0, SubSeq(st.file, 1, Min2(n, Len(st.file))))
\* the effect of one event: returned value, what it reads, the state after it; at is the writer position seen after a failed write
Effect(st, e, at) ==
  LET cap == Len(st.buf) IN
  CASE e[1] = "w" -> LET t == TypeOf(e[2])
                         ps == Parts(t, e[3])
                         all == Cat(ps)
                     IN IF Writable(t, e[3]) /\ st.w + Len(all) <= cap THEN <<1, <<>>, [st EXCEPT !.buf = Over(@, st.w, all), !.w = @ + Len(all)]>>
                        ELSE LET stop == IF at \in Stops(ps, st.w, cap) /\ Writable(t, e[3]) THEN at ELSE st.w
                             IN <<0, <<>>, [st EXCEPT !.buf = Over(@, st.w, SubSeq(all, 1, stop - st.w)), !.w = stop]>>
    [] e[1] = "t" -> IF Len(e[2]) > e[3] \/ st.w + e[3] > cap THEN <<0, <<>>, st>>
                     ELSE <<1, <<>>, [st EXCEPT !.buf = Over(@, st.w, Padded(e[2], e[3], e[4], e[5])), !.w = @ + e[3]]>>
    [] e[1] = "r" -> LET d == Decode(TypeOf(e[2]), Rest(st)) IN IF d[1] THEN <<1, d[2], [st EXCEPT !.r = @ + d[3]]>> ELSE <<0, <<>>, [st EXCEPT !.r = IF Whole(TypeOf(e[2])) THEN @ ELSE at]>>
    [] e[1] = "u" -> IF st.r + e[2] > cap THEN <<0, <<>>, st>> ELSE <<1, SubSeq(st.buf, st.r + 1, st.r + e[2]), [st EXCEPT !.r = @ + e[2]]>>
    [] e[1] = "wm" -> <<1, <<>>, [st EXCEPT !.wm = Append(@, st.w)]>>
    [] e[1] = "rm" -> <<1, <<>>, [st EXCEPT !.rm = Append(@, st.r)]>>
    [] e[1] = "wb" -> IF st.wm = <<>> THEN <<0, <<>>, st>> ELSE <<1, <<>>, [st EXCEPT !.w = st.wm[Len(st.wm)], !.wm = Front(@)]>>
    [] e[1] = "rb" -> IF st.rm = <<>> THEN <<0, <<>>, st>> ELSE <<1, <<>>, [st EXCEPT !.r = st.rm[Len(st.rm)], !.rm = Front(@)]>>
    [] e[1] = "sk" -> IF st.r + e[2] < 0 \/ st.r + e[2] > cap THEN <<0, <<>>, st>> ELSE <<1, <<>>, [st EXCEPT !.r = @ + e[2]]>>
    [] e[1] = "rw" -> IF e[2] > st.r THEN <<0, <<>>, st>> ELSE <<1, <<>>, [st EXCEPT !.r = @ - e[2]]>>
    [] e[1] = "w0" -> <<1, <<>>, [st EXCEPT !.w = 0]>>
    [] e[1] = "r0" -> <<1, <<>>, [st EXCEPT !.r = 0]>>
    [] e[1] = "wc" -> <<1, <<>>, [st EXCEPT !.w = 0, !.buf = Zeros(cap)]>>
    [] e[1] = "rc" -> <<1, <<>>, [st EXCEPT !.r = 0, !.buf = Zeros(cap)]>>
    [] e[1] = "fo" -> <<st.w, <<>>, [st EXCEPT !.file = SubSeq(st.buf, 1, st.w)]>>
    [] e[1] = "fi" -> IF e[2] > cap THEN <<0, <<>>, st>> ELSE <<1, <<>>, [st EXCEPT !.buf = Fill(st, e[2])]>>
    [] e[1] = "fq" -> IF st.r = 0 THEN <<0, <<>>, st>> ELSE <<1, <<>>, [st EXCEPT !.buf = Fill(st, st.r)]>>
\* observation after an event: <<returned, read, writer position, reader position, buffer>>
View(x) == <<x[1], x[2], x[3].w, x[3].r, x[3].buf>>
RECURSIVE PlayOK(_, _, _)
PlayOK(st, es, os) ==
  IF es = <<>> THEN os = <<>>
  ELSE LET e == es[1]
           o == os[1]
           x == Effect(st, e, IF e[1] = "r" THEN o[4] ELSE o[3])
       IN /\ o = View(x)
          /\ x[3].r >= 0 /\ x[3].r <= Len(st.buf)
          /\ (e[1] = "r" => x[3].r >= st.r)
          /\ PlayOK(x[3], Tail(es), Tail(os))
\* plain transfers: <<bytes, returned size, values read back>>, and what reading a cut file returns
PodsOK(o, i, r) ==
  LET all == Cat(i[2]) IN
  CASE i[1] = "args" -> r = <<all, i[2], 1, 1, IF all = <<>> THEN 1 ELSE 0>>
    [] i[1] \in {"seq", "list", "arr"} -> r = <<all, i[2], 1, 1, IF all = <<>> THEN 1 ELSE 0>>
    [] i[1] = "set" -> LET s == InOrder("set", Num(2), i[2]) IN r = <<Cat(s), s, 1, 1, IF all = <<>> THEN 1 ELSE 0>>
    [] i[1] = "mset" -> LET s == InOrder("mset", Num(2), i[2]) IN r = <<Cat(s), s, 1, 1, IF all = <<>> THEN 1 ELSE 0>>
\* one value of many elements (a text: many copies of a piece): its size, what is written, what is read back
BulkOK(ty, u, n, cap, r) ==
  LET t == TypeOf(ty)
      text == t[1] = "s"
      w == IF text THEN t[2] ELSE 4
      each == IF text THEN u ELSE Cat(Cat([k \in 1..Len(u) |-> Parts(t[3], u[k])]))
      count == n * Len(u)
      fits == (~text \/ (CASE w = 1 -> count < 256 [] w = 2 -> count < 65536 [] w = 4 -> TRUE)) /\ w + n * Len(each) <= cap
  IN IF fits THEN r = <<1, w + n * Len(each), LE(count, w), Packed(each, n), 1, w + n * Len(each), Packed(IF text THEN u ELSE Cat([k \in 1..Len(u) |-> u[k] \o <<124>>]), n)>>
     ELSE r = <<0, 1>>
PodsBulk(u, n) == LET one == <<Packed(Cat(u), n), Packed(Cat(u), n), 1, 1, 0>> IN <<one, one>>
BinaryConforms(o, i, r) == CASE o = "binary" -> PlayOK(Start(i[1], i[2]), i[3], r)
                             [] o = "binary_bulk" -> BulkOK(i[1], i[2], i[3], i[4], r)
                             [] o = "pods_bulk" -> r = PodsBulk(i[1], i[2])
                             [] o = "pods" -> PodsOK(o, i, r)
BinaryExpected(o, i) == <<>>
=============================================================================
