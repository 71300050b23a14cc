------------------------------- MODULE MCGrid -------------------------------
(* Histories of edits over small grids.  The same history is also run on a   *)
(* set of surviving cell coordinates; the grid must be its projection.       *)
EXTENDS Grid, Json
CONSTANTS Depth, Rng, EmitAll
Cf == [rd |-> <<10>>, cd |-> <<44>>, opt |-> 0, dq |-> 0, trim |-> 0]
VARIABLES t, g, orig, alive, hist, obs
vars == <<t, g, orig, alive, hist, obs>>
Start(x) == Load(x, Cf)
Coords(gr) == { <<r, c>> \in (1..Len(gr)) \X (1..4) : c <= Len(gr[r]) }
TextSet == { <<97,44,98,10,97,10,99,44,44,97>>, <<44,10,98,44,97,44,97,10,10,97,44,44>>, <<97>>, <<>> , <<98,44,98,10,98,44,99,10,97,44,98,10,44,97>>}
Init == /\ t \in TextSet /\ g = Start(t) /\ orig = g /\ alive = Coords(g) /\ hist = <<>> /\ obs = <<See(g)>>
Second == <<97,44,97,10,98>>
R2 == { <<a, b>> \in (0..Rng) \X (0..Rng) : a <= b + 1 }
Events == { <<"rmrow", k>> : k \in 0..Rng }
     \cup { <<"rmrowif", ab[1], ab[2], p>> : ab \in R2, p \in {1, 2, 3, 4, 5} }
     \cup { <<"rmrowall", p>> : p \in {0, 3, 4} }
     \cup { <<"rmtok", ab[1], ab[2], p>> : ab \in R2, p \in {1, 2, 3} }
     \cup { <<"rmempty">> } \cup { <<"enforceall", n>> : n \in 1..2 }
     \cup { <<"enforce", ab[1], ab[2], 2>> : ab \in R2 } \cup { <<"minmax", ab[1], ab[2], 2, 3>> : ab \in R2 } \cup { <<"minmaxall", 1, 2>> }
     \cup { <<"clear">>, <<"reload", Second, <<10>>, <<44>>, 0, 0, 0>>, <<"reloadfile", Second, <<10>>, <<44>>, 0, 0, 0>>, <<"loadmissing">> }
IsLoad(e) == e[1] \in {"clear", "reload", "reloadfile", "loadmissing"}
\* ---- the same events on coordinates
LiveRows == SetToSortSeq({ rc[1] : rc \in alive }, LAMBDA x, y : x < y)
RowNo(k) == LiveRows[k + 1]
CellsOf(r) == SetToSortSeq({ rc \in alive : rc[1] = r }, LAMBDA x, y : x[2] < y[2])
TextAt(rc) == orig[rc[1]][rc[2]]
RowHas(e, r, k) == LET cs == CellsOf(r) IN
   CASE e[1] \in {"rmrow"} -> TRUE
     [] e[1] \in {"rmrowif", "rmrowall"} -> LET p == e[Len(e)] IN
          (CASE p = 0 -> FALSE [] p = 1 -> TRUE [] p = 2 -> Len(cs) % 2 = 0 [] p = 3 -> TextAt(cs[1]) = <<97>> [] p = 4 -> k % 2 = 1 [] p = 5 -> TextAt(cs[1]) = <<>>)
     [] e[1] \in {"enforce", "enforceall"} -> Len(cs) # e[Len(e)]
     [] e[1] \in {"minmax", "minmaxall"} -> Len(cs) < e[Len(e) - 1] \/ Len(cs) > e[Len(e)]
CellHas(e, rc) == CASE e[1] = "rmempty" -> TextAt(rc) = <<>>
                    [] OTHER -> CASE e[4] = 1 -> TRUE [] e[4] = 2 -> TextAt(rc) = <<>> [] e[4] = 3 -> TextAt(rc) = <<97>>
Window(e) == CASE e[1] = "rmrow" -> <<e[2], e[2] + 1>>
               [] e[1] \in {"rmrowif", "rmtok", "enforce", "minmax"} -> <<e[2], e[3]>>
               [] OTHER -> <<0, Len(LiveRows)>>
Touched(e) == LET w == Window(e) n == Len(LiveRows) IN
   IF (w[1] > n \/ w[2] > n \/ w[1] > w[2]) THEN {} ELSE { RowNo(k) : k \in w[1]..(w[2] - 1) }
Survivors(e) ==
  IF e[1] \in {"rmtok", "rmempty"} THEN { rc \in alive : ~(rc[1] \in Touched(e) /\ CellHas(e, rc)) }
  ELSE LET gone == { r \in Touched(e) : RowHas(e, r, (CHOOSE k \in 1..Len(LiveRows) : LiveRows[k] = r) - 1) } IN { rc \in alive : rc[1] \notin gone }
Do(e) == /\ Len(hist) < Depth
         /\ LET n == Edit(g, e) IN g' = n[1] /\ obs' = Append(obs, <<n[2], See(n[1])>>)
         /\ hist' = Append(hist, e) /\ t' = t
         /\ IF IsLoad(e) THEN orig' = g' /\ alive' = Coords(g') ELSE orig' = orig /\ alive' = Survivors(e)
         /\ (Len(hist') = Depth \/ EmitAll) => PrintT(ToJson([o |-> "grid", i |-> <<t, <<10>>, <<44>>, 0, 0, 0, hist'>>, r |-> obs']))
Next == \E e \in Events : Do(e)
Spec == Init /\ [][Next]_vars
Project == [k \in 1..Len(LiveRows) |-> LET cs == CellsOf(LiveRows[k]) IN [j \in 1..Len(cs) |-> TextAt(cs[j])]]
Projection == g = Project
NoEmptyRow == \A k \in 1..Len(g) : g[k] # <<>>
Stats == See(g)[2] = (IF g = <<>> THEN 0 ELSE CHOOSE m \in 1..4 : (\E k \in 1..Len(g) : Len(g[k]) = m) /\ \A k \in 1..Len(g) : Len(g[k]) <= m)
=============================================================================
