------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences of codes 0..255.  Shared vocabulary.         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Byte == 0..255
ToSetOf(s) == { s[k] : k \in 1..Len(s) }
\* s[b..e) with 0-based half open bounds, as the code counts
Sub(s, b, e) == SubSeq(s, b + 1, e)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
\* a letter of 256 * n + c stands for the byte c written n times (harness/vh.hpp); the bytes of a text
ByteOf(c) == IF c < 76800 THEN c ELSE c % 256
ByteWidth(c) == IF c < 76800 THEN 1 ELSE c \div 256
ByteSize(s) == FoldLeft(LAMBDA n, c : n + ByteWidth(c), 0, s)
Lower(c) == IF IsUpper(ByteOf(c)) THEN c + 32 ELSE c
Upper(c) == IF IsLower(ByteOf(c)) THEN c - 32 ELSE c
LowerS(s) == [k \in 1..Len(s) |-> Lower(s[k])]
UpperS(s) == [k \in 1..Len(s) |-> Upper(s[k])]
Map(s, Op(_)) == [k \in 1..Len(s) |-> Op(s[k])]
Rep(x, n) == [k \in 1..n |-> x]
Cat(ss) == FoldLeft(LAMBDA acc, t : acc \o t, <<>>, ss)
Keep(s, P(_)) == SelectSeq(s, P)
StartsWith(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(p, s) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
\* 0-based occurrence test
OccursAt(p, s, k) == k + Len(p) <= Len(s) /\ SubSeq(s, k + 1, k + Len(p)) = p
\* first index k (0-based) >= from with P(k), or -1
FirstFrom(from, to, P(_)) ==
  LET c == { k \in from..to : P(k) } IN IF c = {} THEN -1 ELSE CHOOSE k \in c : \A j \in c : k <= j
Rev(s) == Reverse(s)
\* lexicographic order on integer sequences
RECURSIVE LexLT(_, _)
LexLT(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
               ELSE IF ByteOf(a[1]) # ByteOf(b[1]) THEN ByteOf(a[1]) < ByteOf(b[1]) ELSE LexLT(Tail(a), Tail(b))
B2N(b) == IF b THEN 1 ELSE 0
SeqsUpTo(S, n) == UNION { [1..k -> S] : k \in 0..n }
\* n times the same piece
Packed(u, n) == <<u, n>>
\* ... and a rest
PackedThen(u, n, t) == <<IF u = <<>> THEN <<>> ELSE Packed(u, n), Len(t), t>>
=============================================================================
