------------------------------ MODULE T_Decomp ------------------------------
(* Recorded decompositions and decomposed searches of the real code        *)
(* against Decomposition.  FOCUS selects the property.                     *)
EXTENDS TraceBase, Decomposition

FOCUS == IOEnv.FOCUS

VARIABLES l, inst

\* an individual as recorded: routes, tour, cost, feasibility
Evaluated(I, i) == i.x = CapacityOk(I, i.R) /\ i.c = Cost(I, i.R, I.P)

NewCheck(I, t) ==
  LET m == t.map
  IN IF ~IsMapping(I, m) THEN {"mapping"}
     ELSE LET S == SubProblem(I, m) IN
       IF ~Partition(S, t.sub.R) THEN {"sub-solution-serves-its-customers"}
       ELSE Failing(<<
         <<"complete-routes", TakenOut(t.before.R, MapRoutes(m, t.sub.R), t.rest.R)>>,
         <<"rest-tour", IsTourOf(t.rest.g, t.rest.R)>>,
         <<"sub-tour", IsTourOf(t.sub.g, t.sub.R)>>,
         <<"size", t.data.n = S.n>>, <<"capacity", t.data.cap = S.cap>>, <<"demands", t.data.q = S.q>>,
         <<"distances", t.data.d = S.d>>,
         <<"locations", t.data.xy = [k \in 1..Len(m) |-> I.xy[m[k] + 1]]>>,
         <<"sub-evaluation", t.sub.x = CapacityOk(S, t.sub.R) /\ t.sub.c = Cost(S, t.sub.R, I.P)>> >>)

\* n: the decomposition, t: its result
ResCheck(I, n, t) ==
  LET S == SubProblem(I, n.map)
  IN IF ~Partition(S, t.sub.R) THEN {"result-serves-its-customers"}
     ELSE Failing(<<
       <<"enough-vehicles-left", NumNonEmpty(t.sub.R) + NumNonEmpty(n.rest.R) <= I.N>>,
       <<"result-not-worse", t.kind = "run" => NotWorse(S, n.sub.R, t.sub.R)>>,
       <<"result-evaluation", t.sub.x = CapacityOk(S, t.sub.R) /\ t.sub.c = Cost(S, t.sub.R, I.P)>>,
       <<"global-search-undisturbed", t.ci = 0 /\ t.gh = 0>> >>)

FinCheck(I, n, r, t) ==
  IF ~Partition(I, t.after.R) THEN {"every-customer-once"}
  ELSE Failing(<<
    <<"fleet", Len(t.after.R) = I.N>>,
    <<"routes", PutBack(I, n.map, r.sub.R, n.rest.R, t.after.R)>>,
    <<"tour", IsTourOf(t.after.g, t.after.R)>>,
    <<"evaluation", Evaluated(I, t.after)>>,
    <<"not-worse", r.kind = "run" => NotWorse(I, n.before.R, t.after.R)>> >>)

(***************************************************************************)
(* The decomposed search                                                   *)
(***************************************************************************)
\* p: the step before
RecordedCheck(I, t) ==
  IF t.hc = <<>> THEN {}
  ELSE IF ~Partition(I, t.hl) THEN {"recorded-every-customer-once"}
  ELSE Failing(<<
    <<"recorded-fleet", Len(t.hl) = I.N>>,
    <<"recorded-capacity", CapacityOk(I, t.hl)>>,
    <<"recorded-cost", t.hc[Len(t.hc)] = Distance(I, t.hl)>> >>)
HistoryCheck(p, t) == Failing(<<
    <<"decreasing", \A k \in 1..(Len(t.hc) - 1) : t.hc[k + 1] < t.hc[k]>>,
    <<"nothing-lost", Len(p.hc) <= Len(t.hc) /\ SubSeq(t.hc, 1, Len(p.hc)) = p.hc>>,
    <<"best-cost", t.hb = IF t.hc = <<>> THEN 0 - 1 ELSE t.hc[Len(t.hc)]>> >>)
\* the first step creates a solution, each one after it is a generation;
\* the limits are looked at before each step
PhaseCheck(I, p, t, first) ==
  IF p.t THEN Failing(<< <<"idle-when-terminated", t.t /\ t.ci = p.ci /\ t.hc = p.hc /\ t.hl = p.hl>> >>)
  ELSE LET reached == p.ci >= I.maxit
           time1 == t.e0 >= I.tl         \* certainly over
           time0 == t.e1 < I.tl          \* certainly not
       IN Failing(<<
         <<"stops-at-its-limits", (reached \/ time1) => t.t>>,
         <<"does-not-stop-before", t.t => reached \/ ~time0>>,
         <<"no-work-after-the-end", t.t => t.ci = p.ci /\ t.hc = p.hc>>,
         <<"generations", ~t.t => t.ci = p.ci + (IF first THEN 0 ELSE 1)>> >>)
StartCheck(t) == Failing(<< <<"starts-with-nothing", ~t.t /\ t.ci = 0 /\ t.hc = <<>> >> >>)

RunCheck(I, p, t, first) ==
  CASE FOCUS = "C01" -> RecordedCheck(I, t)
    [] FOCUS = "C03" -> HistoryCheck(p, t)
    [] FOCUS = "C13" -> IF t.k = "start" THEN StartCheck(t) ELSE PhaseCheck(I, p, t, first)
    \* the penalty is the initial one before and after every step
    [] FOCUS = "C14" -> Failing(<< <<"penalty-stays", t.pini>> >>)
    [] FOCUS = "C15" -> IF t.k = "start" THEN {}
                        ELSE RecordedCheck(I, t) \cup HistoryCheck(p, t)

Check(I, k) ==
  LET t == Log[k]
  IN CASE t.k \in {"inst", "end", "screened"} -> {}
       [] t.k = "hang" -> {"the-run-does-not-end"}
       [] t.k = "new" -> IF FOCUS = "C15" THEN NewCheck(I, t) ELSE {}
       [] t.k = "res" -> IF FOCUS = "C15" THEN ResCheck(I, Log[k - 1], t)
                         \* the time is that of the whole run: there is none left for the subproblem
                         ELSE IF FOCUS = "C13" THEN Failing(<< <<"subproblem-after-the-time-limit", t.over => t.ran = 0>> >>) ELSE {}
       [] t.k = "fin" -> IF FOCUS = "C15" THEN FinCheck(I, Log[k - 2], Log[k - 1], t) ELSE {}
       [] t.k = "start" -> RunCheck(I, t, t, FALSE)
       [] OTHER -> RunCheck(I, Log[k - 1], t, Log[k - 1].k = "start")

Init == l = 0 /\ inst = 1
Next ==
  /\ l < TraceLen
  /\ l' = l + 1
  /\ inst' = IF Log[l + 1].k = "inst" THEN l + 1 ELSE inst
  /\ Report(l + 1, Check(Log[inst'], l + 1))
  /\ ReportEnd(l + 1)
Spec == Init /\ [][Next]_<<l, inst>>
=============================================================================
