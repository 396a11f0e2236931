------------------------------ MODULE T_Moves -------------------------------
(* Recorded moves of the real local search against Moves and LinkState.    *)
EXTENDS TraceBase, Moves, LinkState

VARIABLES l, inst

MoveCheck(I, t) ==
  LET e == MoveResult(t.m, t.R, t.u, t.v)
      exact == MoveDelta(I, t.m, t.R, t.u, t.v, I.P)
  IN  IF ~e.ok
      THEN Failing(<< <<"predicts-gain-for-a-move-that-does-not-apply", ~t.neg>> >>)
      ELSE (IF t.delta = exact THEN {} ELSE {"delta"})
           \cup (IF t.done THEN LinkedDiff(I, e.R, I.P, t.post) ELSE {})

\* only the two routes change, and the cost drops exactly if it says so
ExchangeCheck(I, t) ==
  IF ~Partition(I, t.post.f) THEN {"partition"}
  ELSE LinkedDiff(I, t.post.f, I.P, t.post)
       \cup Failing(<<
         <<"other-routes", \A k \in 1..Len(t.R) : k \in {t.a, t.b} \/ t.R[k] = t.post.f[k]>>,
         <<"gain", IF t.ok THEN Cost(I, t.post.f, I.P) < Cost(I, t.R, I.P) ELSE t.post.f = t.R>> >>)

Check(I, t) ==
  CASE t.k \in {"inst", "screened"} -> {}
    [] t.k = "ld"   -> LinkedDiff(I, t.R, I.P, t.post)
    [] t.k = "mv"   -> MoveCheck(I, t)
    [] t.k = "ss"   -> ExchangeCheck(I, t)

Init == l = 0 /\ inst = 1
Next ==
  /\ l < TraceLen
  /\ l' = l + 1
  /\ inst' = IF Log[l + 1].k = "inst" THEN l + 1 ELSE inst
  /\ Report(l + 1, Check(Log[inst'], Log[l + 1]))
  /\ ReportEnd(l + 1)
Spec == Init /\ [][Next]_<<l, inst>>
=============================================================================
