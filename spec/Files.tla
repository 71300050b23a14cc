-------------------------------- MODULE Files --------------------------------
(* Files and their lines.  In file histories contents are runs <<byte,      *)
(* count>>, so that files far larger than a copy block stay small here.     *)
EXTENDS Bytes
\* ------------------------------------------------------------------ lines
RECURSIVE Lines(_)
Lines(s) == IF s = <<>> THEN <<>>
            ELSE LET q == FirstFrom(0, Len(s) - 1, LAMBDA x : s[x + 1] = 10) IN
                 IF q = -1 THEN <<s>> ELSE <<SubSeq(s, 1, q)>> \o Lines(SubSeq(s, q + 2, Len(s)))
FirstN(l, n) == SubSeq(l, 1, Min2(n, Len(l)))
Unique(l) == SetToSortSeq(ToSetOf(l), LexLT)
Sorted(l) == SortSeq(l, LexLT)
\* lines shown to a visitor that rejects the line stop, at most n of them (0: no limit)
Shown(l, n, stop) == LET q == FirstFrom(1, Len(l), LAMBDA x : l[x] = stop)
                         upto == IF q = -1 THEN Len(l) ELSE q
                     IN IF n > 0 /\ n < upto THEN SubSeq(l, 1, n) ELSE SubSeq(l, 1, upto)
Accepted(l, n, stop) == LET v == Shown(l, n, stop) IN IF v # <<>> /\ v[Len(v)] = stop THEN Len(v) - 1 ELSE Len(v)
WithDelim(l, d) == Cat([x \in 1..Len(l) |-> l[x] \o d])
\* ------------------------------------------------------------------ runs
RECURSIVE Norm(_)
Norm(f) == IF f = <<>> THEN <<>>
           ELSE IF f[1][2] = 0 THEN Norm(Tail(f))
           ELSE LET t == Norm(Tail(f)) IN IF t # <<>> /\ t[1][1] = f[1][1] THEN << <<f[1][1], f[1][2] + t[1][2]>> >> \o Tail(t) ELSE <<f[1]>> \o t
RECURSIVE SizeOf(_)
SizeOf(f) == IF f = <<>> THEN 0 ELSE f[1][2] + SizeOf(Tail(f))
RECURSIVE Slice(_, _, _)
Slice(f, from, n) == IF f = <<>> \/ n = 0 THEN <<>>
                     ELSE IF from >= f[1][2] THEN Slice(Tail(f), from - f[1][2], n)
                     ELSE LET k == Min2(n, f[1][2] - from) IN << <<f[1][1], k>> >> \o Slice(Tail(f), 0, n - k)
Join2(f, g) == Norm(f \o g)
\* file system: name -> <<exists, contents>>; names 4 and up lie in a directory that does not exist
Gone == <<0, <<>>>>
CanWrite(n) == n <= 3
Store(fs, n, c) == [fs EXCEPT ![n] = <<1, Norm(c)>>]
\* an event gives <<returned, data, file system>>
Effect(fs, e) ==
  LET a == e[2] IN
  CASE e[1] = "exists" -> <<fs[a][1], <<>>, fs>>
    [] e[1] = "size" -> <<SizeOf(fs[a][2]), <<>>, fs>>
    [] e[1] = "load" -> <<fs[a][1], fs[a][2], fs>>
    [] e[1] = "loadn" -> IF fs[a][1] = 0 THEN <<0, Norm(<< <<46, e[3]>> >>), fs>>
                         ELSE LET k == Min2(e[3], SizeOf(fs[a][2])) IN <<1, Norm(Slice(fs[a][2], 0, k) \o << <<46, e[3] - k>> >>), fs>>
    [] e[1] = "write" -> IF CanWrite(a) THEN <<1, <<>>, Store(fs, a, e[3])>> ELSE <<0, <<>>, fs>>
    [] e[1] = "copy" -> IF fs[a][1] = 0 \/ ~CanWrite(e[3]) THEN <<0, <<>>, fs>> ELSE <<1, <<>>, Store(fs, e[3], fs[a][2])>>
    [] e[1] = "cat" -> IF fs[a][1] = 0 \/ fs[e[3]][1] = 0 \/ ~CanWrite(e[4]) THEN <<0, <<>>, fs>>
                       ELSE <<1, <<>>, Store(fs, e[4], fs[a][2] \o fs[e[3]][2])>>
    [] e[1] = "same" -> <<B2N(fs[a][1] = 1 /\ fs[e[3]][1] = 1 /\ fs[a][2] = fs[e[3]][2]), <<>>, fs>>
    [] e[1] = "at" -> IF fs[a][1] = 1 /\ e[3] + e[4] <= SizeOf(fs[a][2]) THEN <<1, Norm(Slice(fs[a][2], e[3], e[4])), fs>> ELSE <<0, <<>>, fs>>
    [] e[1] = "rm" -> <<1, <<>>, [fs EXCEPT ![a] = Gone]>>
\* writing a file from itself is refused: the files stay as they were
Refused(e) == \/ (e[1] = "copy" /\ e[2] = e[3]) \/ (e[1] = "cat" /\ (e[2] = e[4] \/ e[3] = e[4]))
RECURSIVE PlayOK(_, _, _)
PlayOK(fs, es, os) ==
  IF es = <<>> THEN os = <<>>
  ELSE LET e == es[1]
           o == os[1]
           x == Effect(fs, e)
       IN IF Refused(e) THEN o[3] = fs /\ PlayOK(fs, Tail(es), Tail(os))
          ELSE o = x /\ PlayOK(x[3], Tail(es), Tail(os))
NoFiles == <<Gone, Gone, Gone, Gone>>
\* many copies of a piece that ends with a line end
LinesBulk(u, n, lim) == LET l == Lines(u) c == n * Len(l) IN << <<c, c, Packed(Cat([k \in 1..Len(l) |-> l[k] \o <<124>>]), n)>>, <<Min2(lim, c), Min2(lim, c)>> >>
\* a file with holes: marks <<high, low, bytes>> in order, none crossing a multiple of 2^24; what lies between reads as zeros
HugeAt(ms, e) ==
  LET l == ms[Len(ms)] past == e[1] > l[1] \/ (e[1] = l[1] /\ e[2] + e[3] > l[2] + Len(l[3]))
      ByteAt(p) == LET h == {k \in 1..Len(ms) : ms[k][1] = e[1] /\ p >= ms[k][2] /\ p < ms[k][2] + Len(ms[k][3])} IN
                   IF h = {} THEN 0 ELSE LET k == CHOOSE x \in h : TRUE IN ms[k][3][p - ms[k][2] + 1]
  IN IF past THEN <<0, <<>>>> ELSE <<1, [x \in 1..e[3] |-> ByteAt(e[2] + x - 1)]>>
Huge(ms, es) == LET l == ms[Len(ms)] IN << <<l[1], l[2] + Len(l[3])>>, 1>> \o [k \in 1..Len(es) |-> HugeAt(ms, es[k])]
FilesExpected(o, i) ==
  CASE o = "lines" -> Lines(i[1])
    [] o = "lines_bulk" -> LinesBulk(i[1], i[2], i[3])
    [] o = "huge" -> Huge(i[1], i[2])
    [] o = "linesn" -> LET l == FirstN(Lines(i[1]), i[2]) IN <<l, Len(l)>>
    [] o = "linesc" -> LET l == Lines(i[1]) IN <<Shown(l, i[2], i[3]), Accepted(l, i[2], i[3])>>
    [] o = "lineset" -> LET l == Lines(i[1]) IN <<Unique(l), Sorted(l), Rev(Sorted(l))>>
    [] o = "wlines" -> <<WithDelim(i[1], i[2]), WithDelim(Unique(i[1]), i[2]), WithDelim(Sorted(i[1]), i[2])>>
    [] o = "lineints" -> <<WithDelim(i[1], <<10>>), i[1], i[1]>>
    [] o = "nofile" -> <<0, 0, 0, 0, 0, 0>>
    [] OTHER -> <<>>
FilesConforms(o, i, r) == IF o = "files" THEN PlayOK(NoFiles, i[1], r) ELSE r = FilesExpected(o, i)
=============================================================================
