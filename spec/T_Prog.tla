-------------------------------- MODULE T_Prog -------------------------------
(* Complete runs of the program: they end by themselves, in time, and      *)
(* deliver a solution of the instance.                                     *)
EXTENDS TraceBase, Output

VARIABLES l

Check(t) ==
  IF t.rc = 0 - 2 THEN {"does-not-end"}
  ELSE IF t.rc = 99 THEN {"memory-error"}
  ELSE IF t.rc # 0 THEN {"crash"}
  ELSE Failing(<<
    <<"in-time", t.ms <= t.maxms>>,
    <<"delivers-what-it-found", t.found \/ t.n = 1 => t.lines # <<>> >>,
    <<"serves-every-customer-once", t.lines # <<>> => Partition(t, t.R)>>,
    <<"form", t.lines # <<>> => WithoutCost(t.lines) = SolutionLines(t.R)>>,
    <<"capacity", t.lines # <<>> /\ Partition(t, t.R) => CapacityOk(t, t.R)>>,
    <<"cost", t.lines # <<>> /\ t.round /\ Partition(t, t.R) =>
         LET d == Distance(t, t.R) IN t.pc = <<d \div 1000000, d % 1000000>> >> >>)

Init == l = 0
Next ==
  /\ l < TraceLen
  /\ l' = l + 1
  /\ Report(l + 1, Check(Log[l + 1]))
  /\ ReportEnd(l + 1)
Spec == Init /\ [][Next]_l
=============================================================================
