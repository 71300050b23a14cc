------------------------------ MODULE MCSplit ------------------------------
(* Exhaustive model of the scanner over every text up to MaxLen.            *)
EXTENDS Split, Json
CONSTANTS Alphabet, Delims, MaxLen, Opts
VARIABLES cfg, st
vars == <<cfg, st>>
Init == /\ cfg \in [s : SeqsUpTo(Alphabet, MaxLen), D : {Delims}, opt : Opts]
        /\ st = ScanInit
Plain == /\ ~st.fin /\ st.p < Len(cfg.s) /\ ~At(cfg, st.p)
         /\ st' = ScanPlain(cfg, st) /\ UNCHANGED cfg
Delim == /\ ~st.fin /\ At(cfg, st.p)
         /\ st' = ScanDelim(cfg, st) /\ UNCHANGED cfg
Emit(o, more, ts) == PrintT(ToJson([o |-> o, i |-> <<cfg.s, SetToSortSeq(cfg.D, <), cfg.opt>> \o more, r |-> RangeAndText(cfg.s, ts)]))
End == /\ ~st.fin /\ st.p >= Len(cfg.s)
       /\ st' = ScanEnd(cfg, st) /\ UNCHANGED cfg
       /\ Emit("split", <<>>, st'.out)
       /\ (cfg.opt < 7 => Emit("tokenizer", <<>>, st'.out))
       /\ \A n \in {0, 1, 2, 3} : Emit("split_n", <<n>>, FirstN(st'.out, n))
Next == Plain \/ Delim \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- what the tokenisation guarantees, independently of the scanner
T == st.out
NDelim == Cardinality({ q \in 1..Len(cfg.s) : cfg.s[q] \in cfg.D })
NRuns == Cardinality({ q \in 1..Len(cfg.s) : cfg.s[q] \in cfg.D /\ (q = 1 \/ cfg.s[q - 1] \notin cfg.D) })
Ordered == \A k \in 1..Len(T) : T[k][1] <= T[k][2] /\ (k > 1 => T[k - 1][2] <= T[k][1])
GapsAreDelims == st.fin =>
  \A q \in 0..(Len(cfg.s) - 1) : (\A k \in 1..Len(T) : ~(T[k][1] <= q /\ q < T[k][2])) => cfg.s[q + 1] \in cfg.D
NoDelimInside ==
  \A k \in 1..Len(T) : \A q \in T[k][1]..(T[k][2] - 1) :
     cfg.s[q + 1] \in cfg.D => /\ Incl1(cfg.opt) \/ InclRun(cfg.opt)
                               /\ \A j \in q..(T[k][2] - 1) : cfg.s[j + 1] \in cfg.D
Count == st.fin =>
  Len(T) = IF cfg.s = <<>> THEN 0
           ELSE 1 + (IF Compress(cfg.opt) \/ InclRun(cfg.opt) THEN NRuns ELSE NDelim)
\* in default mode the text is recovered exactly by re-inserting the delimiters
Rejoin == st.fin /\ cfg.opt = 0 /\ cfg.s # <<>> =>
  /\ T[1][1] = 0 /\ T[Len(T)][2] = Len(cfg.s)
  /\ \A k \in 2..Len(T) : T[k][1] = T[k - 1][2] + 1
\* with the delimiter included nothing is lost
Lossless == st.fin /\ cfg.opt \in {2, 4, 5} => Cat(Texts(cfg.s, T)) = cfg.s
Terminates == <>(st.fin)
=============================================================================
