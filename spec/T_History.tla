------------------------------ MODULE T_History -----------------------------
(* Solutions offered to the records of the real algorithm against Genetic  *)
EXTENDS TraceBase, Genetic, Adjacency

VARIABLES l, inst, s

After(I, st, t) == IF t.o = "restart" THEN Restarting(st) ELSE Offer(I, st, t.R)

Judge(I, st, t) == Failing(<<
  <<"costs-of-the-records", t.hc = st.hc>>,
  <<"last-record", IF st.hc = <<>> THEN t.hl = <<>> ELSE SameRoutes(t.hl, st.hl)>>,
  <<"best-cost", t.hb = IF st.hc = <<>> THEN 0 - 1 ELSE BestRecorded(st)>>,
  <<"best-individual", IF st.hc = <<>> THEN t.bs = <<>> ELSE Len(t.bs) = 1 /\ SameRoutes(t.bs[1], st.hl)>>,
  \* added from outside: a member, unless it is there already
  <<"member", t.o = "initial" =>
     \E k \in DOMAIN (t.fe \o t["in"]) : LET m == (t.fe \o t["in"])[k] IN 0 \in {BrokenPairs(I, m, t.R), BrokenPairs(I, t.R, m)}>>,
  <<"members-in-their-class", (\A k \in DOMAIN t.fe : Feasible(I, t.fe[k])) /\ \A k \in DOMAIN t["in"] : ~Feasible(I, t["in"][k])>> >>)

Init == l = 0 /\ inst = 1 /\ s = NoRecords
Next ==
  /\ l < TraceLen
  /\ l' = l + 1
  /\ LET t == Log[l + 1]
     IN /\ inst' = IF t.k = "inst" THEN l + 1 ELSE inst
        /\ s' = IF t.k = "inst" THEN NoRecords ELSE TLCEval(After(Log[inst], s, t))
        /\ Report(l + 1, IF t.k = "op" THEN Judge(Log[inst], s', t) ELSE {})
        /\ ReportEnd(l + 1)
Spec == Init /\ [][Next]_<<l, inst, s>>
=============================================================================
