-------------------------------- MODULE T_Cfg --------------------------------
(* Effective settings of the real code against Settings; and what complete *)
(* runs of the program show of them.                                       *)
EXTENDS TraceBase, Settings

VARIABLES l

\* a run of the program on two customers whose distances differ when rounded
RunCheck(t) ==
  LET v(key) == Effective(t.def, t.yaml, t.arg, key)
  IN {x[1] : x \in {y \in {
       <<"ends-normally", t.rc = 0>>,
       <<"solution-where-asked", t.rc = 0 => t.files = <<v("solution_path")>> >>,
       <<"time-limit", t.rc = 0 => t.lines = (IF v("time_limit") = "0.0" THEN 0 ELSE 2) >>,
       <<"rounding", t.rc = 0 /\ t.lines = 2 => t.cost = (IF v("round_distances") = "true" THEN t.rounded ELSE t.exact)>>
     } : ~y[2]}}

Check(t) ==
  CASE t.k = "cfg" -> IF DOMAIN t.eff # DOMAIN t.def THEN {"parameters"}
                      ELSE WrongKeys(t.def, t.yaml, t.arg, t.eff)
    [] t.k = "chain" -> LET want == AfterOps(t.def, t.ops, Len(t.ops))
                        IN  {key \in DOMAIN want : key \notin DOMAIN t.eff \/ t.eff[key] # want[key]}
    [] t.k = "run" -> RunCheck(t)

Init == l = 0
Next ==
  /\ l < TraceLen
  /\ l' = l + 1
  /\ Report(l + 1, Check(Log[l + 1]))
  /\ ReportEnd(l + 1)
Spec == Init /\ [][Next]_l
=============================================================================
