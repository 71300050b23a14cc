------------------------------- MODULE MCNum -------------------------------
(* One character per step: the integer converter's accumulate-and-check on a *)
(* scaled type (0..HiB, -LoB..HiB) next to the real grammar automaton.       *)
EXTENDS Num, Json
CONSTANTS Alphabet, MaxLen, HiB, LoB, Digits, Seeds, DoInt, DoReal
VARIABLES s, q, rq, phase, t, last, n
vars == <<s, q, rq, phase, t, last, n>>
\* boundary texts of the real types: the extreme value with its last digits varied
Bump(d, x) == SubSeq(d, 1, Len(d) - 1) \o <<x>>
Bump2(d, x, y) == SubSeq(d, 1, Len(d) - 2) \o <<x, y>>
Edge == IF ~Seeds THEN {} ELSE
   UNION { { sg \o z \o w : sg \in {<<>>, <<Minus>>, <<Plus>>}, z \in {<<>>, <<48>>, <<48, 48, 48>>},
             w \in UNION { { Bump(d, x), d \o <<x>>, SubSeq(d, 1, Len(d) - 1), Bump2(d, x, 48), <<x>> \o Tail(d), Bump(d, 47), Bump(d, 58), Bump2(d, 58, x) } : x \in 48..57 } }
           : d \in { MaxDigs[k] : k \in 0..7 } }
Init == /\ s \in SeqsUpTo(Alphabet, MaxLen) \cup Edge
        /\ q = 0 /\ rq = "start" /\ phase = "sign" /\ t = 0 /\ last = -1 /\ n = 0
\* the design: one optional sign, leading zeros skipped, then digits accumulated one behind
IntStep(c) ==
  CASE phase = "sign" /\ c \in {Minus, Plus} /\ q = 0 -> <<"zeros", t, last, n>>
    [] phase \in {"sign", "zeros"} /\ c = 48 -> <<"zeros", t, last, n>>
    [] phase \in {"sign", "zeros", "digits"} /\ IsDigit(c) /\ n < Digits ->
         <<"digits", IF last >= 0 THEN t * 10 + last ELSE t, c - 48, n + 1>>
    [] OTHER -> <<"bad", t, last, n>>
Read == /\ q < Len(s) /\ q' = q + 1 /\ s' = s
        /\ rq' = RStep(rq, s[q + 1])
        /\ LET r == IntStep(s[q + 1]) IN phase' = r[1] /\ t' = r[2] /\ last' = r[3] /\ n' = r[4]
Done == q = Len(s) /\ phase # "end"
M10 == HiB \div 10
LimitLast == IF IsNeg(s) THEN LoB % 10 ELSE HiB % 10
Accept == /\ phase \in {"zeros", "digits"} /\ Body(s) # <<>>
          /\ (n = Digits => t < M10 \/ (t = M10 /\ last <= LimitLast))
Value == t * 10 + Max2(last, 0)
Emit(o, in) == PrintT(ToJson([o |-> o, i |-> in, r |-> NumExpected(o, in)]))
Stop == /\ Done /\ phase' = "end" /\ UNCHANGED <<s, q, rq, t, last, n>>
        /\ (DoInt => Emit("int_parse", <<s>>) /\ Emit("small_parse", <<s>>)
                     /\ (Len(s) <= 19 /\ s # <<>> => Emit("fast_check", <<s>>))
                     /\ (Len(s) <= 19 => Emit("fast_conv", <<s>>))
                     /\ (Body(s) # <<>> /\ Len(Strip0(Body(s))) <= 18 => Emit("fast_signed", <<s>>))
                     /\ (Canon(IsNeg(s), Strip0(Body(s))) = s /\ AllDigits(Body(s)) /\ s # <<>> => Emit("int_print", <<s>>)))
        /\ (DoReal /\ ~SpecialTail(s) /\ Len(ExpSig(s)) <= 2 => Emit("real_accept", <<s>>))
Next == Read \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the converter accepts exactly the representable numerals of the scaled type, and its value is the numeral's
NumeralOf(u) == LET b == Body(u) IN b # <<>> /\ AllDigits(b) /\ (Len(Strip0(b)) <= 8) /\ NumOf(Strip0(b)) <= (IF IsNeg(u) THEN LoB ELSE HiB)
IntExact == (Done /\ Len(s) <= MaxLen) => (Accept <=> NumeralOf(s)) /\ (Accept => Value = NumOf(Strip0(Body(s))))
NoOverflow == (phase \in {"sign", "zeros", "digits"}) => t <= HiB
\* the automaton is the grammar
Dec(u) == u # <<>> /\ AllDigits(u)
Grammar(u) ==
  \E a \in 0..Len(u), b \in 0..Len(u) :
    LET body == Body(u)
        m == SubSeq(body, 1, a)             \* mantissa
        rest == SubSeq(body, a + 1, Len(body))
        suf == rest # <<>> /\ rest[Len(rest)] \in {70, 102, 76, 108}
        ex == IF suf THEN SubSeq(rest, 1, Len(rest) - 1) ELSE rest
        ip == SubSeq(m, 1, b) fp == SubSeq(m, b + 1, Len(m))
    IN /\ a <= Len(body) /\ b <= a
       /\ (ip = <<>> \/ AllDigits(ip))
       /\ (fp = <<>> \/ (fp[1] = 46 /\ AllDigits(Tail(fp))))
       /\ \E k \in 1..Len(m) : IsDigit(m[k])
       /\ (ex = <<>> \/ (ex[1] \in {69, 101} /\ Dec(Body(Tail(ex)))))
IsGrammar == (Done /\ Len(s) <= MaxLen /\ DoReal) => ((rq \in RAccept) <=> Grammar(s))
AutomatonAgrees == Done => (IsDecimal(s) <=> rq \in RAccept)
\* appending a zero to the fraction, or moving the point with the exponent, keeps the value
ScaleFree == (Done /\ rq = "frac") => /\ SigDigits(s \o <<48>>) = SigDigits(s) \o (IF SigDigits(s) = <<>> THEN <<>> ELSE <<48>>)
                                      /\ (SigDigits(s) # <<>> => Point(s \o <<48>>) = Point(s) /\ Point(s \o <<101, 53>>) = Point(s) + 5)
Terminates == <>(phase = "end")
=============================================================================
