------------------------------- MODULE T_Dist -------------------------------
(* Recorded distances and neighbour lists of the real code against         *)
(* Distances.  Record: row i of a context whose node j is map[j+1].        *)
EXTENDS TraceBase, Distances

\* the names of the failing checks of a sequence of <<name, ok>>
Failing(checks) == {checks[k][1] : k \in {j \in DOMAIN checks : ~checks[j][2]}}

VARIABLES l, inst

RowCheck(I, t) ==
  LET m == Len(t.map)
  IN  IF Len(t.d) # m THEN {"size"}
      ELSE Failing(<<
        <<"size", t.len = m>>,
        <<"distance", \A j \in 1..m : IsDistance(I, t.map[t.i + 1], t.map[j], t.d[j])>>,
        <<"symmetric", t.sym>>,
        \* whichever way it is stored, and seen from whichever subproblem
        <<"same-in-all-storage-modes", t.same>>,
        <<"neighbour-list", IsNeighbourList(t.nb, t.i, Orders(I, t.map, t.i, t.d), m)>> >>)

Check(I, t) == IF t.k = "inst" THEN {} ELSE RowCheck(I, t)

Init == l = 0 /\ inst = 1
Next ==
  /\ l < TraceLen
  /\ l' = l + 1
  /\ inst' = IF Log[l + 1].k = "inst" THEN l + 1 ELSE inst
  /\ Report(l + 1, Check(Log[inst'], Log[l + 1]))
  /\ ReportEnd(l + 1)
Spec == Init /\ [][Next]_<<l, inst>>
=============================================================================
