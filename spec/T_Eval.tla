------------------------------- MODULE T_Eval -------------------------------
(* Recorded evaluations of the real code against CVRP.                     *)
(* With I.slack the distances of the instance are rounded down, and        *)
(* distances and costs may exceed their sum by one per edge.               *)
EXTENDS TraceBase, Adjacency

VARIABLES l, inst

Edges(r) == IF Len(r) = 0 THEN 0 ELSE Len(r) + 1
RECURSIVE EdgesTo(_, _)
EdgesTo(R, k) == IF k = 0 THEN 0 ELSE EdgesTo(R, k - 1) + Edges(R[k])

\* x is the value v of something with that many edges
Is(I, x, v, edges) == IF I.slack THEN x >= v - 1 /\ x <= v + edges + 1 ELSE x = v

EvalCheck(I, t) ==
  LET R == t.R
      m == Len(R)
  IN  IF Len(t.dist) # m \/ Len(t.over) # m \/ Len(t.rc) # m THEN {"number-of-routes"}
      ELSE Failing(<<
        <<"route-distance", \A k \in 1..m : Is(I, t.dist[k], RouteDist(I, R[k]), Edges(R[k]))>>,
        <<"route-overload", \A k \in 1..m : t.over[k] = Load(I, R[k]) - I.cap>>,
        <<"route-cost", \A k \in 1..m : Is(I, t.rc[k], RouteCost(I, R[k], t.P), Edges(R[k]))>>,
        <<"penalized-cost", Is(I, t.cost, Cost(I, R, t.P), EdgesTo(R, m))>>,
        <<"feasibility", t.feas = CapacityOk(I, R)>>,
        <<"route-feasibility", \A k \in 1..m : t.rfeas[k] = (Load(I, R[k]) <= I.cap)>>,
        <<"successors", \A x \in Customers(I) : t.succ[x] = Succ(R, x)>>,
        <<"predecessors", \A x \in Customers(I) : t.pred[x] = Pred(R, x)>> >>)

Check(I, t) == CASE t.k \in {"inst", "screened"} -> {}
                 [] t.k = "ev" -> EvalCheck(I, t)
                 [] t.k = "bp" -> Failing(<< <<"distance-between-solutions", t.ab = BrokenPairs(I, t.A, t.B) /\ t.ba = BrokenPairs(I, t.B, t.A)>> >>)

Init == l = 0 /\ inst = 1
Next ==
  /\ l < TraceLen
  /\ l' = l + 1
  /\ inst' = IF Log[l + 1].k = "inst" THEN l + 1 ELSE inst
  /\ Report(l + 1, Check(Log[inst'], Log[l + 1]))
  /\ ReportEnd(l + 1)
Spec == Init /\ [][Next]_<<l, inst>>
=============================================================================
