------------------------------- MODULE MCRuns -------------------------------
(* All texts up to MaxLen over Alphabet; the scanner is run as a transition  *)
(* system (one element per step) for both modes and compared with the       *)
(* declarative meaning of "n consecutive matching elements".                *)
EXTENDS Runs, Json
CONSTANTS Alphabet, MaxLen, Types, Ns
VARIABLES s, t, n, q, c, found, fin
vars == <<s, t, n, q, c, found, fin>>
Init == /\ s \in SeqsUpTo(Alphabet, MaxLen) /\ t \in Types /\ n \in Ns
        /\ q = 0 /\ c = 0 /\ found = <<>> /\ fin = FALSE
Elem == /\ ~fin /\ c < n /\ q < Len(s)
        /\ q' = q + 1 /\ c' = IF s[q + 1] \in ClassTab[t] THEN c + 1 ELSE 0
        /\ UNCHANGED <<s, t, n, found, fin>>
Deliver == /\ ~fin /\ c = n /\ found' = Append(found, <<q - n, q>>) /\ c' = 0
           /\ UNCHANGED <<s, t, n, q, fin>>
Emit(o, in) == PrintT(ToJson([o |-> o, i |-> in, r |-> RunsExpected(o, in)]))
Stop == /\ ~fin /\ c < n /\ q = Len(s) /\ fin' = TRUE /\ UNCHANGED <<s, t, n, q, c, found>>
        /\ \A m \in {0, 1} : /\ Emit("runs_find", <<s, t, m, n>>) /\ Emit("runs_split", <<s, t, m, n>>) /\ Emit("runs_match", <<s, t, m, n>>)
                             /\ Emit("runs_split_n", <<s, t, m, 1, n>>) /\ Emit("runs_split_n", <<s, t, m, 2, n>>)
        /\ Emit("runs_pred", <<s, <<48, 97>>, n>>) /\ Emit("runs_pred_n", <<s, <<48, 97>>, 2, n>>)
        /\ (n = 1 => /\ \A x \in {0, 1, 2} : Emit("regex", <<s, x, 0>>) /\ Emit("regex_n", <<s, x, 0, 1>>)
                     /\ Emit("regex", <<s, 2, 1>>) /\ Emit("regex", <<s, 2, 2>>) /\ Emit("split_pair", <<s, <<48, 61>>>>)
                     /\ Emit("offset", <<s, <<1, 2>>, 0>>) /\ Emit("offset", <<s, <<2, 1>>, 1>>))
Next == Elem \/ Deliver \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Match(p) == s[p + 1] \in ClassTab[t]
\* the delivered pieces are runs of exactly n matching elements, disjoint, in order, and
\* between and after them no n consecutive matching elements remain
Sound == \A k \in 1..Len(found) : /\ found[k][2] - found[k][1] = n
                                  /\ \A p \in found[k][1]..(found[k][2] - 1) : Match(p)
                                  /\ (k > 1 => found[k - 1][2] <= found[k][1])
Complete == fin => \A k \in 0..Len(found) :
   LET lo == IF k = 0 THEN 0 ELSE found[k][2]
       hi == IF k = Len(found) THEN Len(s) ELSE found[k + 1][1]
   IN \A p \in lo..hi : p + n <= hi => \E j \in p..(p + n - 1) : ~Match(j)
Agrees == fin => found = RunSplit(s, ClassTab[t], n, 0, 0, 100000)
\* at-least-n delivers maximal runs
Maximal == fin => LET f == RunSplit(s, ClassTab[t], n, 1, 0, 100000) IN
   \A k \in 1..Len(f) : /\ f[k][2] - f[k][1] >= n /\ (\A p \in f[k][1]..(f[k][2] - 1) : Match(p))
                        /\ (f[k][2] < Len(s) => ~Match(f[k][2])) /\ (f[k][1] > 0 => ~Match(f[k][1] - 1))
Terminates == <>fin
=============================================================================
