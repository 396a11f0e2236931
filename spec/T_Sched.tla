------------------------------ MODULE T_Sched -------------------------------
(* Recorded cooling schedules and acceptance decisions against Schedule.   *)
EXTENDS TraceBase, Schedule

\* the names of the failing checks of a sequence of <<name, ok>>
Failing(checks) == {checks[k][1] : k \in {j \in DOMAIN checks : ~checks[j][2]}}

VARIABLES l

\* steps done after the first k operations
RECURSIVE Done(_, _)
Done(ops, k) == IF k = 0 THEN 0 ELSE Step(Done(ops, k - 1), ops[k])

IterCheck(t) ==
  LET m == Len(t.ops)
      at(k) == Done(t.ops, k - 1)       \* steps at state k
  IN Failing(<<
    <<"starts-at-the-start-temperature", \A k \in 1..(m + 1) : at(k) = 0 => t.st[k][1] = (IF t.zero THEN 0 ELSE 1000000)>>,
    <<"never-heats-up", \A k \in 1..m : t.ops[k] = "update" => t.st[k + 1][1] <= t.st[k][1]>>,
    <<"finished-after-its-steps", \A k \in 1..(m + 1) : t.st[k][2] = Finished(at(k), t.n)>>,
    <<"cooling-curve", t.zero \/ \A k \in 1..(m + 1) : CurveBounds(at(k), t.n, t.st[k][1])>>,
    <<"same-after-reset", \A j, k \in 1..(m + 1) : at(j) = at(k) => t.st[j] = t.st[k]>> >>)

RECURSIVE TimeAt(_, _)
TimeAt(t, k) == IF k = 0 THEN TimeNew ELSE TimeStep(TimeAt(t, k - 1), t.ops[k], t.rate, t.dur = "none")
TimeCheck(t) ==
  LET m == Len(t.ops)
  IN Failing(<<
    <<"finished-when-noticed", \A k \in 1..(m + 1) : t.st[k][2] = TimeAt(t, k - 1).done>>,
    <<"starts-at-the-start-temperature", \A k \in 1..(m + 1) : TimeAt(t, k - 1).fresh => t.st[k][3]>>,
    <<"never-heats-up", \A k \in 1..m : t.ops[k] = "update" => t.st[k + 1][1] <= t.st[k][1]>>,
    <<"cools", t.dur = "none" => \A k \in 1..(m + 1) : ~TimeAt(t, k - 1).fresh => t.st[k][1] < 1000000>> >>)

\* state k was refreshed between the times log[k][1] and log[k][2]
RunCheck(t) ==
  LET at(us) == (20 * us) \div t.dur     \* grid point before
      hi(us) == IF at(us) >= 20 THEN 2 ELSE Exp20[at(us) + 1] - (at(us) * 135335) \div 20 + 2
      lo(us) == IF at(us) + 1 >= 20 THEN -1000000000 ELSE Exp20[at(us) + 2] - ((at(us) + 1) * 135335) \div 20 - 2
  IN Failing(<<
    <<"never-heats-up", \A k \in 1..(Len(t.log) - 1) : t.log[k + 1][3] <= t.log[k][3]>>,
    <<"cooling-curve", \A k \in 1..Len(t.log) :
         /\ t.log[k][3] <= (IF t.log[k][1] > 5 THEN hi(t.log[k][1] - 5) ELSE 1000000)
         /\ t.log[k][3] >= lo(t.log[k][2] + 5)>>,
    <<"finished-once-the-time-is-over", \A k \in 1..Len(t.log) :
         /\ t.log[k][1] >= t.dur + 5 => t.log[k][4]
         /\ t.log[k][4] => t.log[k][2] + 5 >= t.dur>> >>)

\* shares in thousandths of the expected 607, 368 and 50, with a wide margin for chance
AccCheck(t) == Failing(<<
    <<"better-is-accepted", t.better = t.of_better>>,
    <<"margin-scales-with-temperature", /\ t.half \in 540..670
                                        /\ t.one \in 305..430
                                        /\ t.three \in 20..85>> >>)
ZeroCheck(t) == Failing(<<
    <<"nothing-worse-at-zero", t.worse = 0 /\ t.equal = 0>>,
    <<"better-is-accepted", t.better = 1000>> >>)

Check(t) ==
  CASE t.k = "inst" -> {}
    [] t.k = "iter" -> IterCheck(t)
    [] t.k = "time" -> TimeCheck(t)
    [] t.k = "run"  -> RunCheck(t)
    [] t.k = "acc"  -> AccCheck(t)
    [] t.k = "zero" -> ZeroCheck(t)

Init == l = 0
Next ==
  /\ l < TraceLen
  /\ l' = l + 1
  /\ Report(l + 1, Check(Log[l + 1]))
  /\ ReportEnd(l + 1)
Spec == Init /\ [][Next]_l
=============================================================================
