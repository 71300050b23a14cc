-------------------------------- MODULE Hold --------------------------------
(* Holders: attributes that track changes, handles bound to variables,      *)
(* scoped restoration, and helpers that own or fill containers.             *)
EXTENDS Num
\* ---- attribute of an integer ("i") or a string ("s")
\* state <<initialised, current, previous>>; a step is <<what, text>>
Zero(ty) == IF ty = "i" THEN <<48>> ELSE <<>>
Canonic(ty, t) == IF ty = "i" THEN IntConv(t, 2)[2] ELSE t
Fits(ty, t) == ty = "s" \/ IntConv(t, 2)[1] = 1
AttrNew(ty) == <<0, Zero(ty), Zero(ty)>>
AttrStep(ty, st, w, t) ==
  CASE w = "set" -> <<1, Canonic(ty, t), st[2]>>
    [] w = "parse" -> IF Fits(ty, t) THEN <<1, Canonic(ty, t), st[3]>> ELSE st
    [] w = "write" -> <<st[1], Canonic(ty, t), st[3]>>
    [] w = "back" -> <<st[1], st[2], Canonic(ty, t)>>
    [] w = "forget" -> <<0, st[2], st[3]>>
    [] w = "make" -> <<1, Canonic(ty, t), Canonic(ty, t)>>
    [] w = "copy" -> st
\* what is seen: parse answer, state, changed?, equal to the text?, written out?
AttrSeen(ty, st, w, t) ==
  <<B2N(w # "parse" \/ Fits(ty, t)), st[1], st[2], st[3], B2N(st[1] = 1 /\ st[2] # st[3]), B2N(st[1] = 1 /\ Fits(ty, t) /\ st[2] = Canonic(ty, t)),
    IF st[1] = 1 THEN st[2] ELSE <<78>>>>
RECURSIVE AttrRun(_, _, _)
AttrRun(ty, st, steps) == IF steps = <<>> THEN <<>> ELSE
  LET n == TLCEval(AttrStep(ty, st, steps[1][1], steps[1][2])) IN <<AttrSeen(ty, n, steps[1][1], steps[1][2])>> \o AttrRun(ty, n, Tail(steps))
\* ---- handles: three of them over four variables; 0 means unbound
VarType == <<"i", "s", "i", "u">>
VarConv(v, t) == CASE VarType[v] = "i" -> IntConv(t, 2) [] VarType[v] = "u" -> IntConv(t, 1) [] VarType[v] = "s" -> <<1, t>>
HandNew == [b |-> <<0, 0, 0>>, x |-> <<<<49>>, <<115>>, <<50>>, <<51>>>>, ok |-> 1]
\* a step is <<what, handle, other, text>>
HandStep(st, w, h, k, t) ==
  CASE w = "bind" -> [st EXCEPT !.b[h] = k, !.ok = 1]
    [] w = "copy" -> [st EXCEPT !.b[h] = st.b[k], !.ok = 1]
    [] w = "assign" -> [st EXCEPT !.b[h] = st.b[k], !.ok = 1]
    [] w = "clear" -> [st EXCEPT !.b[h] = 0, !.ok = 1]
    [] w = "parse" -> IF st.b[h] = 0 \/ VarConv(st.b[h], t)[1] = 0 THEN [st EXCEPT !.ok = 0] ELSE [st EXCEPT !.x[st.b[h]] = VarConv(st.b[h], t)[2], !.ok = 1]
HandSeen(st) == <<st.ok, [h \in 1..3 |-> B2N(st.b[h] # 0)], st.x, [h \in 1..3 |-> IF st.b[h] = 0 THEN <<78>> ELSE st.x[st.b[h]]]>>
RECURSIVE HandRun(_, _)
HandRun(st, steps) == IF steps = <<>> THEN <<>> ELSE LET n == TLCEval(HandStep(st, steps[1][1], steps[1][2], steps[1][3], steps[1][4])) IN <<HandSeen(n)>> \o HandRun(n, Tail(steps))
\* ---- nested scopes: a step is <<what, number>>; state <<value, stack of <<restore, saved>>>>
ScopeStep(st, w, n) ==
  CASE w = "open" -> <<st[1], Append(st[2], <<n, st[1]>>)>>
    [] w = "write" -> <<n, st[2]>>
    [] w = "switch" -> IF st[2] = <<>> THEN st ELSE <<st[1], [st[2] EXCEPT ![Len(st[2])] = <<n, st[2][Len(st[2])][2]>>]>>
    [] w = "close" -> IF st[2] = <<>> THEN st ELSE LET top == st[2][Len(st[2])] IN <<IF top[1] = 1 THEN top[2] ELSE st[1], SubSeq(st[2], 1, Len(st[2]) - 1)>>
RECURSIVE ScopeRun(_, _)
ScopeRun(st, steps) == IF steps = <<>> THEN (IF st[2] = <<>> THEN <<st[1]>> ELSE ScopeRun(st, <<<<"close", 0>>>>))
                       ELSE LET n == TLCEval(ScopeStep(st, steps[1][1], steps[1][2])) IN <<n[1]>> \o ScopeRun(n, Tail(steps))
\* ---- containers
Asc(s) == SortSeq(s, <)
Set2Seq(S) == SetToSortSeq(S, <)
Ordered(kind, ids) == CASE kind \in {"vector", "deque", "list"} -> ids [] kind \in {"set", "map"} -> Set2Seq(ToSetOf(ids)) [] kind \in {"multiset", "multimap"} -> Asc(ids)
Keys(ps) == Set2Seq({ ps[k][1] : k \in 1..Len(ps) })
ValuesOf(ps, key) == LET m == Keep(ps, LAMBDA p : p[1] = key) IN [k \in 1..Len(m) |-> m[k][2]]
HoldExpected(o, i) ==
  CASE o = "attr" -> <<AttrRun(i[1], AttrNew(i[1]), i[2])>>
    [] o = "handles" -> <<HandRun(HandNew, i[1])>>
    [] o = "scopes" -> <<ScopeRun(<<i[1], <<>>>>, i[2])>>
    \* what is left, what was deleted then, what is deleted by deleting all the rest
    [] o = "owned" -> LET D == ToSetOf(i[3]) s == Ordered(i[1], i[2]) IN
         <<Keep(s, LAMBDA x : x \notin D), Asc(Keep(s, LAMBDA x : x \in D)), Asc(Keep(s, LAMBDA x : x \notin D)), 0>>
    [] o = "keys" -> <<Keys(i[1]), ValuesOf(i[1], i[2])>>
    [] o = "push" -> <<i[1] \o i[2], Set2Seq(ToSetOf(i[1] \o i[2])), Asc(i[1] \o i[2]), 0>>
    [] o = "action" -> <<i[2], i[1]>>
HoldConforms(o, i, r) == r = HoldExpected(o, i)
=============================================================================
