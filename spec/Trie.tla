-------------------------------- MODULE Trie --------------------------------
(* Two prefix tries.  A trie is a finite map from non empty keys to values;  *)
(* the empty key is never stored.                                            *)
EXTENDS Bytes
None == [x \in {} |-> 0]
Put(m, key, v) == IF key = <<>> THEN m ELSE [x \in DOMAIN m \cup {key} |-> IF x = key THEN v ELSE m[x]]
\* events: <<"ins", slot, key, value>>, <<"copy", from, to>>, <<"new", slot>>
Step(s, e) == CASE e[1] = "ins"  -> [s EXCEPT ![e[2]] = Put(@, e[3], e[4])]
                [] e[1] = "copy" -> [s EXCEPT ![e[3]] = s[e[2]]]
                [] e[1] = "new"  -> [s EXCEPT ![e[2]] = None]
HasPrefix(m, p) == p # <<>> /\ \E key \in DOMAIN m : StartsWith(p, key)
Look(m, p) == <<B2N(p \in DOMAIN m), IF p \in DOMAIN m THEN m[p] ELSE 0, B2N(HasPrefix(m, p))>>
See(s, probes) == [n \in 1..2 |-> [k \in 1..Len(probes) |-> Look(s[n], probes[k])]]
RECURSIVE Play(_, _, _)
Play(s, es, probes) == IF es = <<>> THEN <<>> ELSE LET n == Step(s, es[1]) IN <<See(n, probes)>> \o Play(n, Tail(es), probes)
TrieExpected(o, i) == Play(<<None, None>>, i[1], i[2])
TrieConforms(o, i, r) == r = TrieExpected(o, i)
=============================================================================
