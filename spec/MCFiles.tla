------------------------------ MODULE MCFiles ------------------------------
(* Copying and concatenating block by block, interrupted by nothing but a   *)
(* file that cannot be opened; and reading lines byte by byte.              *)
EXTENDS Files, Json
CONSTANTS Block, Depth, Sizes, MaxText, LineBytes, Scale
VARIABLES mode, fs, job, hist, text, pos, cur, got
vars == <<mode, fs, job, hist, text, pos, cur, got>>
Contents == { << <<b, n>> >> : b \in {65, 66}, n \in Sizes }
NoJob == <<0, <<>>, 0, 0>>
Texts == SeqsUpTo(LineBytes, MaxText)
Init == \/ mode = "files" /\ fs = NoFiles /\ job = NoJob /\ hist = <<>> /\ text = <<>> /\ pos = 0 /\ cur = <<>> /\ got = <<>>
        \/ mode = "lines" /\ fs = NoFiles /\ job = NoJob /\ hist = <<>> /\ text \in Texts /\ pos = 0 /\ cur = <<>> /\ got = <<>>
Big(f) == [k \in 1..Len(f) |-> <<f[k][1], f[k][2] * Scale>>]
BigEvent(e) == CASE e[1] = "write" -> <<e[1], e[2], Big(e[3])>> [] e[1] = "loadn" -> <<e[1], e[2], e[3] * Scale>> [] e[1] = "at" -> <<e[1], e[2], e[3] * Scale, e[4] * Scale>> [] OTHER -> e
Out(h) == PrintT(ToJson([o |-> "files", i |-> <<[k \in 1..Len(h) |-> BigEvent(h[k])]>>, r |-> <<>>]))
Note(e) == /\ hist' = Append(hist, e) /\ (Len(hist') = Depth => Out(hist'))
At(e) == /\ mode = "files" /\ job = NoJob /\ Len(hist) < Depth /\ Note(e)
Same3 == UNCHANGED <<mode, text, pos, cur, got>>
Plain == /\ \/ \E n \in 1..2, c \in Contents : At(<<"write", n, c>>) /\ fs' = Effect(fs, <<"write", n, c>>)[3]
            \/ \E n \in 1..2 : At(<<"rm", n>>) /\ fs' = Effect(fs, <<"rm", n>>)[3]
            \/ \E e \in {<<"load", 1>>, <<"size", 3>>, <<"same", 1, 2>>, <<"same", 3, 1>>, <<"loadn", 3, 3>>, <<"at", 3, 1, 2>>} : At(e) /\ fs' = fs
         /\ UNCHANGED job /\ Same3
\* copy a to b, concatenate a and b to c: open everything first, then move blocks
Begin(e, srcs, d) ==
  /\ At(e) /\ Same3
  /\ IF Refused(e) \/ (\E k \in 1..Len(srcs) : fs[srcs[k]][1] = 0) \/ ~CanWrite(d) THEN fs' = fs /\ job' = NoJob
     ELSE fs' = Store(fs, d, <<>>) /\ job' = <<d, [k \in 1..Len(srcs) |-> fs[srcs[k]][2]], 1, 0>>
Jobs == \/ \E a, b \in 1..4 : Begin(<<"copy", a, b>>, <<a>>, b)
        \/ \E a, b, c \in 1..3 : Begin(<<"cat", a, b, c>>, <<a, b>>, c)
Move == /\ job # NoJob /\ Same3 /\ UNCHANGED hist
        /\ IF job[3] > Len(job[2]) THEN fs' = fs /\ job' = NoJob
           ELSE LET src == job[2][job[3]]
                    left == SizeOf(src) - job[4]
                    k == Min2(Block, left)
                IN IF left = 0 THEN fs' = fs /\ job' = <<job[1], job[2], job[3] + 1, 0>>
                   ELSE fs' = Store(fs, job[1], fs[job[1]][2] \o Slice(src, job[4], k)) /\ job' = <<job[1], job[2], job[3], job[4] + k>>
ReadByte == /\ mode = "lines" /\ pos < Len(text) /\ pos' = pos + 1
            /\ IF text[pos + 1] = 10 THEN got' = Append(got, cur) /\ cur' = <<>> ELSE got' = got /\ cur' = Append(cur, text[pos + 1])
            /\ UNCHANGED <<mode, fs, job, hist, text>>
EndOfText == /\ mode = "lines" /\ pos = Len(text) /\ pos' = pos + 1
             /\ got' = (IF cur = <<>> THEN got ELSE Append(got, cur)) /\ cur' = <<>>
             /\ PrintT(ToJson([o |-> "lines", i |-> <<text>>, r |-> FilesExpected("lines", <<text>>)]))
             /\ PrintT(ToJson([o |-> "linesn", i |-> <<text, 2>>, r |-> FilesExpected("linesn", <<text, 2>>)]))
             /\ PrintT(ToJson([o |-> "linesc", i |-> <<text, 0, <<97>>>>, r |-> FilesExpected("linesc", <<text, 0, <<97>>>>)]))
             /\ UNCHANGED <<mode, fs, job, hist, text>>
Next == Plain \/ Jobs \/ Move \/ ReadByte \/ EndOfText
Spec == Init /\ [][Next]_vars
RECURSIVE Replay(_, _)
Replay(s, h) == IF h = <<>> THEN s ELSE Replay(IF Refused(h[1]) THEN s ELSE Effect(s, h[1])[3], Tail(h))
\* moving blocks comes to the same as replacing the contents at once
Atomic == (mode = "files" /\ job = NoJob) => fs = Replay(NoFiles, hist)
SourcesKept == job # NoJob => \A n \in 1..3 : n # job[1] => fs[n] = Replay(NoFiles, hist)[n]
LinesRight == (mode = "lines" /\ pos > Len(text)) => got = Lines(text)
=============================================================================
