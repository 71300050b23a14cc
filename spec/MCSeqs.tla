------------------------------- MODULE MCSeqs -------------------------------
(* A sequence read element by element: what each utility would have to keep *)
(* up to date, against its definition on the whole sequence.                *)
EXTENDS Seqs, Json
CONSTANTS Elems, MaxLen
VARIABLES s, dup, low, high, seen, twice, run
vars == <<s, dup, low, high, seen, twice, run>>
D == {CHOOSE x \in Elems : \A y \in Elems : x <= y}
Init == s = <<>> /\ dup = 0 /\ low = 0 /\ high = 0 /\ seen = {} /\ twice = {} /\ run = 0
Next == Len(s) < MaxLen /\ \E x \in Elems :
   /\ s' = Append(s, x)
   /\ dup' = IF s # <<>> /\ s[Len(s)] = x THEN dup + 1 ELSE dup
   /\ low' = (IF s = <<>> THEN x ELSE Min2(low, x)) /\ high' = IF s = <<>> THEN x ELSE Max2(high, x)
   /\ seen' = seen \cup {x} /\ twice' = IF x \in seen THEN twice \cup {x} ELSE twice
   /\ run' = IF run = Len(s) /\ x \in D THEN run + 1 ELSE run
Spec == Init /\ [][Next]_vars
Dups == Duplicates(s) = dup
Ends == Extremes(s) = IF s = <<>> THEN <<>> ELSE <<low, high>>
Uniq == ToSetOf(Uniques(s)) = seen /\ Len(Uniques(s)) = Cardinality(seen) /\ \A k \in 2..Len(Uniques(s)) : Uniques(s)[k - 1] < Uniques(s)[k]
OnceRight == LET k == FirstOnce(s) IN IF seen = twice THEN k = -1 ELSE k >= 0 /\ s[k + 1] \in seen \ twice /\ \A j \in 1..k : s[j] \in twice
Leading == Len(TakenWhile(s, D)) = run /\ TakenUntil(s, Elems \ D) = TakenWhile(s, D)
\* the canonical form is a rotation, no rotation is smaller, and it does not depend on where one starts
CanonRight == s # <<>> => LET c == Canonical(s) IN
                /\ \E k \in 0..(Len(s) - 1) : c = Rotated(s, k)
                /\ \A k \in 0..(Len(s) - 1) : ~LexLT(Rotated(s, k), c) /\ Canonical(Rotated(s, k)) = c
Out == /\ PrintT(ToJson([o |-> "figures", i |-> <<s>>, r |-> SeqsExpected("figures", <<s>>)]))
       /\ PrintT(ToJson([o |-> "once", i |-> <<s>>, r |-> SeqsExpected("once", <<s>>)]))
       /\ \A n \in {0, Len(s) \div 2, Len(s)} : LET i == <<s, SetToSeq(D), n>> IN PrintT(ToJson([o |-> "copies", i |-> i, r |-> SeqsExpected("copies", i)]))
=============================================================================
