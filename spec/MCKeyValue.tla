----------------------------- MODULE MCKeyValue -----------------------------
(* The parser as a reader of one byte at a time, over every short text and  *)
(* every registration, against the definition by blocks.                    *)
EXTENDS KeyValue, Json
CONSTANTS Kind, KeyBytes, MaxLen
VARIABLES reg, ign, text, pos, key, val, where, vs, fails, done
vars == <<reg, ign, text, pos, key, val, where, vs, fails, done>>
BD == 59
PD == 61
Alpha == KeyBytes \cup {BD, PD}
RegKeys == { <<x>> : x \in KeyBytes } \cup {<<>>}
Canonical(k) == KeyOf(Kind, k)
Regs == { <<>> } \cup { << <<Canonical(k)[2], s>> >> : k \in { q \in RegKeys : Canonical(q)[1] = 1 }, s \in {1, 2} }
        \cup { << <<Canonical(a)[2], 1>>, <<Canonical(b)[2], 2>> >> : a, b \in { q \in RegKeys : Canonical(q)[1] = 1 } }
Good(r) == \A a, b \in 1..Len(r) : a # b => r[a][1] # r[b][1]
Init == /\ reg \in { r \in Regs : Good(r) } /\ ign \in 0..1 /\ text = <<>>
        /\ pos = 0 /\ key = <<>> /\ val = <<>> /\ where = "start" /\ vs = None /\ fails = 0 /\ done = FALSE
\* the reader has seen a whole block
Finish ==
  LET k == KeyOf(Kind, key) w == Where(reg, k[2])
      ok == where = "value" /\ val # <<>> /\ k[1] = 1 /\ w # {} /\ Admits(Kind, val)
      s == IF ok THEN reg[CHOOSE x \in w : TRUE][2] ELSE 1
      c == Conv(SlotType(s), val)
  IN IF where = "start" THEN <<vs, fails>>
     ELSE IF ok /\ c[1] = 1 THEN <<[vs EXCEPT ![s] = c[2]], fails>> ELSE <<vs, fails + 1>>
Byte_(c) ==
  /\ ~done /\ pos < MaxLen /\ pos' = pos + 1 /\ text' = Append(text, c) /\ UNCHANGED <<reg, ign>>
  /\ IF c = BD THEN LET f == Finish IN
          /\ vs' = f[1] /\ fails' = f[2] /\ key' = <<>> /\ val' = <<>> /\ where' = "start"
          /\ done' = (ign = 0 /\ f[2] > fails)
     ELSE /\ done' = FALSE /\ UNCHANGED <<vs, fails>>
          /\ CASE where = "value" -> val' = Append(val, c) /\ UNCHANGED <<key, where>>
               [] where # "value" /\ c = PD -> where' = "value" /\ UNCHANGED <<key, val>>
               [] OTHER -> where' = "key" /\ key' = Append(key, c) /\ UNCHANGED val
Next == \E c \in Alpha : Byte_(c)
Spec == Init /\ [][Next]_vars
Ended == LET f == Finish IN <<f[1], f[2]>>
Outcome == IF text = <<>> THEN <<ign, 0, None>>
           ELSE IF done THEN <<0, 0, vs>>
           ELSE IF ign = 0 THEN <<B2N(Ended[2] = 0), 0, Ended[1]>> ELSE <<1, Ended[2], Ended[1]>>
Agrees == LET e == Feed(Kind, reg, text, BD, PD, ign, None) IN
          /\ e = Outcome
          /\ LET i == <<Kind, BD, PD, 99, [k \in 1..Len(reg) |-> <<"reg", reg[k][1], reg[k][2]>>] \o << <<"feed", text, ign>> >> >>
             IN PrintT(ToJson([o |-> "kv", i |-> i, r |-> KeyValueExpected("kv", i)]))
\* only variables some key is bound to ever change, and never by a failure
OnlyRegistered == \A s \in 1..Slots : Outcome[3][s] # Kept => \E k \in 1..Len(reg) : reg[k][2] = s
StrictMeansAll == (ign = 0 /\ Outcome[1] = 1) => Feed(Kind, reg, text, BD, PD, 1, None) = <<1, 0, Outcome[3]>>
IgnoringNeverFails == ign = 1 => Outcome[1] = 1
=============================================================================
