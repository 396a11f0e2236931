------------------------------- MODULE T_Swap -------------------------------
(* Recorded SWAP* calls of the real code against SwapStar.                 *)
EXTENDS TraceBase, SwapStar, LinkState

VARIABLES l, inst

SwapCheck(I, t) ==
  LET a == t.R[t.a]
      b == t.R[t.b]
      R1 == t.post.f
  IN IF ~Partition(I, R1) THEN {"partition"}
     ELSE LinkedDiff(I, R1, I.P, t.post)
       \cup (LET gain == BestGain(I, a, b, I.P)
             IN Failing(<<
                  <<"success-reported-exactly-if-possible", t.ok = (gain > 0)>>,
                  <<"other-routes-changed", \A k \in 1..Len(t.R) : k \in {t.a, t.b} \/ t.R[k] = R1[k]>>,
                  <<"unchanged-without-gain", ~t.ok => R1 = t.R>>,
                  <<"exchange-or-relocation", t.ok => IsExchange(a, b, R1[t.a], R1[t.b])>>,
                  <<"greatest-gain", t.ok => PairCost(I, a, b, I.P) - PairCost(I, R1[t.a], R1[t.b], I.P) = gain>> >>))

Check(I, t) ==
  CASE t.k = "inst" -> IF Metric(t) THEN {} ELSE {"driver-instance-not-metric"}
    [] t.k = "ld"   -> LinkedDiff(I, t.R, I.P, t.post)
    [] t.k = "ss"   -> SwapCheck(I, t)
    [] OTHER -> {}

Init == l = 0 /\ inst = 1
Next ==
  /\ l < TraceLen
  /\ l' = l + 1
  /\ inst' = IF Log[l + 1].k = "inst" THEN l + 1 ELSE inst
  /\ Report(l + 1, Check(Log[inst'], Log[l + 1]))
  /\ ReportEnd(l + 1)
Spec == Init /\ [][Next]_<<l, inst>>
=============================================================================
