------------------------------- MODULE T_Split ------------------------------
(* Recorded splits of the real code against Split.                         *)
EXTENDS TraceBase, Split

VARIABLES l, inst

SplitCheck(I, t) ==
  IF ~IsSplitOf(t.R, t.G) THEN {"routes-are-not-consecutive-pieces-of-the-sequence"}
  ELSE Failing(<<
    <<"too-many-routes", NumNonEmpty(t.R) <= RouteLimit(I, t.K)>>,
    <<"fleet-not-filled", Len(t.R) = I.N>>,
    <<"not-the-cheapest-split", Cost(I, t.R, t.P) = SplitCost(I, t.G, t.K, t.P, t.lin, I.fac)>>,
    <<"not-evaluated", /\ t.ev.cost = Cost(I, t.R, t.P)
                       /\ t.ev.feas = CapacityOk(I, t.R)>>,
    <<"sequence-is-not-the-concatenation", t.geno = Flatten(t.R)>> >>)

Check(I, t) == IF t.k \in {"inst", "screened"} THEN {} ELSE SplitCheck(I, t)

Init == l = 0 /\ inst = 1
Next ==
  /\ l < TraceLen
  /\ l' = l + 1
  /\ inst' = IF Log[l + 1].k = "inst" THEN l + 1 ELSE inst
  /\ Report(l + 1, Check(Log[inst'], Log[l + 1]))
  /\ ReportEnd(l + 1)
Spec == Init /\ [][Next]_<<l, inst>>
=============================================================================
