-------------------------------- MODULE T_LS --------------------------------
(* Recorded runs of the real local search against LocalSearch.             *)
EXTENDS TraceBase, LocalSearch, LinkState

VARIABLES l, inst, metric

\* from solution A to solution B by exchanges only: both routes of each pair
\* may change, the cost drops
ByExchanges(I, E, A, B, P) ==
  A = B \/ (E.ss /\ Partition(I, B) /\ Cost(I, B, P) < Cost(I, A, P))

RECURSIVE Steps(_, _, _, _, _)
\* names of failing checks of steps k.. of run t, reached solution A
Steps(I, E, t, A, k) ==
  IF k > Len(t.steps)
  THEN IF ByExchanges(I, E, A, t.last, t.P) THEN {} ELSE {"change-without-improvement"}
  ELSE LET s == t.steps[k]
           e == MoveResult(s.m, s.a, s.u, s.v)
       IN  IF ~Partition(I, s.a) \/ ~Partition(I, s.b) THEN {"partition"}
           ELSE Failing(<<
                  <<"change-without-improvement", ByExchanges(I, E, A, s.a, t.P)>>,
                  <<"not-the-move", e.ok /\ e.R = s.b>>,
                  <<"disabled-move", s.m \in Range(E.mv)>>,
                  <<"move-without-improvement", Cost(I, s.b, t.P) < Cost(I, s.a, t.P)>> >>)
                \cup Steps(I, E, t, s.b, k + 1)

RunCheck(I, t) ==
  IF ~Partition(I, t.last) \/ ~Partition(I, t.R) THEN {"partition"}
  ELSE Steps(I, I, t, t.R0, 1)
       \cup Failing(<<
         <<"input-not-loaded", Partition(I, t.R0)>>,
         <<"result-not-the-reached-solution", SameRoutes(t.R, t.last)>>,
         <<"fleet", Len(t.R) = I.N>>,
         <<"sequence", t.geno = Flatten(t.R)>>,
         <<"worse-than-input", Cost(I, t.R, t.P) <= Cost(I, t.R0, t.P)>>,
         <<"evaluated-at-current-penalty", /\ t.ev.cost = Cost(I, t.R, I.P)
                                           /\ t.ev.feas = CapacityOk(I, t.R)>>,
         <<"improving-move-left", NoImprovingMove(I, I, t.last, t.P)>>,
         <<"improving-move-into-an-empty-route-left",
             (I.ss /\ t.last # t.R0) => NoImprovingMoveIntoEmpty(I, I, t.last, t.P)>>,
         <<"improving-exchange-left", (I.ss /\ metric) => NoImprovingExchange(I, I, t.last, t.P)>> >>)

Check(I, t) == IF t.k \in {"inst", "screened"} THEN {} ELSE RunCheck(I, t)

Init == l = 0 /\ inst = 1 /\ metric = FALSE
Next ==
  /\ l < TraceLen
  /\ l' = l + 1
  /\ inst' = IF Log[l + 1].k = "inst" THEN l + 1 ELSE inst
  /\ metric' = IF Log[l + 1].k = "inst" THEN Metric(Log[l + 1]) ELSE metric
  /\ Report(l + 1, Check(Log[inst'], Log[l + 1]))
  /\ ReportEnd(l + 1)
Spec == Init /\ [][Next]_<<l, inst, metric>>
=============================================================================
