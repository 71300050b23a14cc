------------------------------- MODULE MCTrie -------------------------------
(* The trie as a tree of nodes built one symbol at a time, next to the map   *)
(* it stands for.  A node is the path that leads to it.                      *)
EXTENDS Trie, Json
CONSTANTS Symbols, MaxKey, Vals, Depth
VARIABLES s, nodes, vals, cur, hist
vars == <<s, nodes, vals, cur, hist>>
Keys == SeqsUpTo(Symbols, MaxKey)
Probes == SetToSortSeq(SeqsUpTo(Symbols, MaxKey + 1), LAMBDA a, b : LexLT(a, b))
Idle == <<0, <<>>, <<>>, 0>>
Init == s = <<None, None>> /\ nodes = <<{}, {}>> /\ vals = <<None, None>> /\ cur = Idle /\ hist = <<>>
Note(e) == /\ hist' = Append(hist, e) /\ s' = Step(s, e)
           /\ Len(hist') = Depth => PrintT(ToJson([o |-> "trie", i |-> <<hist', Probes>>, r |-> Play(<<None, None>>, hist', Probes)]))
\* begin an insertion, then walk, creating the missing nodes
Begin(n, key, v) == /\ cur = Idle /\ Len(hist) < Depth /\ key # <<>> /\ cur' = <<n, <<>>, key, v>> /\ UNCHANGED <<s, nodes, vals, hist>>
BeginEmpty(n, v) == /\ cur = Idle /\ Len(hist) < Depth /\ Note(<<"ins", n, <<>>, v>>) /\ UNCHANGED <<nodes, vals, cur>>
Walk == /\ cur[1] # 0 /\ cur[3] # <<>>
        /\ LET p == Append(cur[2], cur[3][1]) IN
           /\ nodes' = [nodes EXCEPT ![cur[1]] = @ \cup {p}]
           /\ cur' = <<cur[1], p, Tail(cur[3]), cur[4]>>
        /\ UNCHANGED <<s, vals, hist>>
Store == /\ cur[1] # 0 /\ cur[3] = <<>>
         /\ vals' = [vals EXCEPT ![cur[1]] = Put(@, cur[2], cur[4])]
         /\ Note(<<"ins", cur[1], cur[2], cur[4]>>)
         /\ cur' = Idle /\ UNCHANGED nodes
Copy(a, b) == /\ cur = Idle /\ Len(hist) < Depth /\ a # b
              /\ nodes' = [nodes EXCEPT ![b] = nodes[a]] /\ vals' = [vals EXCEPT ![b] = vals[a]]
              /\ Note(<<"copy", a, b>>) /\ UNCHANGED cur
Next == \/ \E n \in 1..2, key \in Keys, v \in Vals : Begin(n, key, v)
        \/ \E n \in 1..2 : BeginEmpty(n, 1)
        \/ Walk \/ Store \/ \E a, b \in 1..2 : Copy(a, b)
Spec == Init /\ [][Next]_vars
\* walking down the tree finds what the map says
FindRight == cur = Idle => \A n \in 1..2 : \A p \in Keys : (p \in DOMAIN vals[n] <=> p \in DOMAIN s[n]) /\ (p \in DOMAIN s[n] => vals[n][p] = s[n][p])
PrefixRight == cur = Idle => \A n \in 1..2 : \A p \in Keys : (p \in nodes[n]) <=> HasPrefix(s[n], p)
PathsClosed == \A n \in 1..2 : \A p \in nodes[n] : Len(p) > 1 => SubSeq(p, 1, Len(p) - 1) \in nodes[n]
=============================================================================
