------------------------------ MODULE MCBinary ------------------------------
(* All histories of a writer and a reader over one small buffer.  log holds *)
(* the values written that nothing has overwritten since.                   *)
EXTENDS Binary, Json
CONSTANTS Cap, Depth, Types
VARIABLES st, log, hist
vars == <<st, log, hist>>
Vals(t) == CASE t = "u8" -> {<<7>>} [] t = "b16" -> {<<1, 2>>} [] t = "u16" -> {<<3, 0>>} [] t = "pst" -> {<<>>, <<97>>, <<97, 98>>}
             [] t = "str" -> {<<>>, <<97>>} [] t = "vu16" -> {<<>>, << <<3, 0>> >>} [] t = "lstr" -> {<<>>, << <<>> >>} [] t = "mu8" -> {<<>>, << <<2>>, <<1>> >>}
             [] t = "pair" -> {<< <<1, 0, 0, 0>>, <<>> >>}
Init == st = Start(Cap, 1) /\ log = {} /\ hist = <<>>
Changed(a, b) == { k \in 1..Cap : a[k] # b[k] }
Intact(l, lo, hi) == { x \in l : x[1] + x[4] <= lo \/ x[1] >= hi }
Do(e, at) ==
  LET x == Effect(st, e, at)
      n == x[3] IN
  /\ Len(hist) < Depth
  /\ st' = n /\ hist' = Append(hist, e)
  /\ log' = IF e[1] = "w" THEN Intact(log, st.w, n.w) \cup (IF x[1] = 1 THEN {<<st.w, e[2], e[3], n.w - st.w>>} ELSE {})
            ELSE IF Changed(st.buf, n.buf) = {} THEN log ELSE {}
  /\ Len(hist') = Depth => PrintT(ToJson([o |-> "binary", i |-> <<Cap, 1, hist'>>, r |-> <<>>]))
Next == \/ \E t \in Types : \E v \in Vals(t) :
             LET ps == Parts(TypeOf(t), v) IN
             IF st.w + Len(Cat(ps)) <= Cap THEN Do(<<"w", t, v>>, 0) ELSE \E at \in Stops(ps, st.w, Cap) : Do(<<"w", t, v>>, at)
        \/ \E t \in Types : Do(<<"r", t>>, st.r)
        \/ \E w \in {"wm", "rm", "wb", "rb", "w0", "r0", "wc", "fo", "fq"} : Do(<<w>>, 0)
        \/ \E n \in {-1, 2, Cap + 1} : Do(<<"sk", n>>, 0)
        \/ Do(<<"rw", 2>>, 0) \/ Do(<<"fi", 2>>, 0) \/ Do(<<"u", 1>>, 0)
Spec == Init /\ [][Next]_vars
InBuffer == st.w >= 0 /\ st.w <= Cap /\ st.r >= 0 /\ st.r <= Cap /\ Len(st.buf) = Cap
MarksInBuffer == \A k \in 1..Len(st.wm) : st.wm[k] <= Cap
\* what was written and not overwritten reads back equal, in exactly the bytes it took
RoundTrip == \A x \in log : Decode(TypeOf(x[2]), SubSeq(st.buf, x[1] + 1, Cap)) = <<TRUE, InOrder(IF TypeOf(x[2])[1] = "q" THEN TypeOf(x[2])[2] ELSE "v", IF TypeOf(x[2])[1] = "q" THEN TypeOf(x[2])[3] ELSE Num(1), x[3]), x[4]>>
=============================================================================
