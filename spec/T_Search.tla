------------------------------ MODULE T_Search ------------------------------
(* Recorded ruin and recreate searches of the real code against            *)
(* RuinRecreate: which candidates are accepted, and what is kept.          *)
EXTENDS TraceBase, RuinRecreate

\* L: line of the load record, s: state of the search
FOCUS == IF "FOCUS" \in DOMAIN IOEnv THEN IOEnv.FOCUS ELSE "C10"

VARIABLES l, inst, L, s, due

LoadState(I, t) == [cur |-> t.R, cand |-> <<>>, open |-> FALSE, best |-> {t.R}, steps |-> 0, P |-> t.P]
LoadCheck(I, t) == ValuesOk(I, t.P, t.cur) \cup ValuesOk(I, t.P, t.sol)
  \cup Failing(<< <<"starts-with-the-loaded-one", t.cur.R = t.R /\ t.sol.R = t.R>>,
                  <<"number-of-steps", t.done = (Steps(t, I.n) = 0)>> >>)

\* steps that were not written down, all of which proposed the current solution
SkipState(I, st, t) == [st EXCEPT !.steps = @ + t.steps]
SkipCheck(I, C, st, t) == Failing(<< <<"number-of-steps", t.same /\ st.steps + t.steps <= Steps(C, I.n)>> >>)

SettleOf(I, C, st, t) == Settle(I, C, st, t.R)

StepState(I, C, st, t) ==
  LET x == SettleOf(I, C, st, t.pre).st
  IN  Propose(I, C, x, t.post.R, 1000)
StepCheck(I, C, st, t) ==
  LET x == SettleOf(I, C, st, t.pre)
  IN  ValuesOk(I, t.P, t.pre)
      \cup Failing(<<
        <<"acceptance", x.ok>>,
        <<"number-of-steps", x.st.steps < Steps(C, I.n)>>,
        <<"penalty", t.P = AdaptedPenalty(I, x.st.P, x.st.cur, x.st.steps + 1, C.up, 1000)>> >>)

Concat(t) == t.g = Flatten(t.R)
SameSolution(t, R) == RouteSet(t.R) = RouteSet(R) /\ Len(t.R) = Len(R) /\ NumNonEmpty(t.R) = NumNonEmpty(R)

PauseState(I, C, st, t) == SettleOf(I, C, st, t.sol).st
PauseCheck(I, C, st, t) ==
  LET x == SettleOf(I, C, st, t.sol)
  IN  ValuesOk(I, t.P, t.sol) \cup ValuesOk(I, t.P, t.cur)
      \cup Failing(<<
        <<"acceptance", x.ok>>,
        <<"current-is-the-accepted-one", t.cur.R = t.sol.R>>,
        <<"penalty", t.P = st.P>>,
        <<"number-of-steps", t.done = (st.steps = Steps(C, I.n))>>,
        <<"result-is-the-accepted-one", SameSolution(t.res, t.sol.R) /\ Concat(t.res) /\ t.res.cost = Cost(I, t.sol.R, t.P)>> >>)

EndCheck(I, C, st, t) ==
  ValuesOk(I, t.P, t.sol) \cup ValuesOk(I, t.P, t.best)
  \cup Failing(<<
    <<"number-of-steps", st.steps = Steps(C, I.n)>>,
    <<"best-is-the-cheapest-accepted", t.best.R \in st.best>>,
    <<"best-cost", t.bc = Cost(I, t.best.R, t.P)>>,
    <<"not-dearer-than-the-loaded-one", t.P = C.P => t.bc <= Cost(I, C.R, t.P)>>,
    <<"result-is-the-best", /\ SameSolution(t.child, t.best.R) /\ Concat(t.child)
                            /\ t.child.cost = t.bc /\ t.child.feas = CapacityOk(I, t.best.R)>> >>)

(***************************************************************************)
(* The recorded best solutions of a search with given candidates: r is the *)
(* cheapest feasible best one so far, none at first.                       *)
(***************************************************************************)
\* the cheapest one that must be recorded by now: it was accepted for sure, feasible, and cheaper than the best before
DueAfter(I, C, st, t, r) ==
  LET x == SettleOf(I, C, st, t)
      yes == st.open /\ t.R = st.cand /\ st.cand # st.cur
  IN  IF yes /\ CapacityOk(I, t.R) /\ (\A b \in st.best : Cost(I, t.R, st.P) < Cost(I, b, st.P))
      THEN IF r = 0 - 1 THEN Distance(I, t.R) ELSE Min2(r, Distance(I, t.R)) ELSE r
Due(I, C, st, t, r) ==
  CASE t.k = "load" -> 0 - 1
    [] t.k = "st" -> DueAfter(I, C, st, t.pre, r)
    [] t.k = "pause" -> DueAfter(I, C, st, t.sol, r)
    [] OTHER -> r
InTime(hb, r) == r = 0 - 1 \/ (hb # 0 - 1 /\ hb <= r)
RecordCheck(I, C, t, r) ==
  CASE t.k = "st" -> Failing(<< <<"recorded-in-time", InTime(t.hb, r)>> >>)
    [] t.k = "end" ->
         LET h == t.rec
             n == Len(h.hc)
             start == C.rec.hb
         IN  Failing(<<
               <<"recorded-in-time", InTime(h.hb, r)>>,
               <<"best-cost", h.hb = IF n = 0 THEN start ELSE h.hc[n]>>,
               <<"decreasing", /\ \A k \in 1..(n - 1) : h.hc[k + 1] < h.hc[k]
                               /\ (n > 0 /\ start # 0 - 1) => h.hc[1] < start>>,
               <<"recorded-solution", n > 0 => /\ Partition(I, h.hl) /\ CapacityOk(I, h.hl) /\ Distance(I, h.hl) = h.hc[n]>> >>)
    [] OTHER -> {}

State(I, C, st, t) ==
  CASE t.k = "load" -> LoadState(I, t)
    [] t.k = "st" -> StepState(I, C, st, t)
    [] t.k = "skip" -> SkipState(I, st, t)
    [] t.k = "pause" -> PauseState(I, C, st, t)
    [] OTHER -> Nothing
Check(I, C, st, t) ==
  CASE t.k = "load" -> LoadCheck(I, t)
    [] t.k = "st" -> StepCheck(I, C, st, t)
    [] t.k = "skip" -> SkipCheck(I, C, st, t)
    [] t.k = "pause" -> PauseCheck(I, C, st, t)
    [] t.k = "end" -> EndCheck(I, C, st, t)
    [] OTHER -> {}

Init == l = 0 /\ inst = 1 /\ L = 1 /\ s = Nothing /\ due = 0 - 1
Next ==
  /\ l < TraceLen
  /\ l' = l + 1
  /\ inst' = IF Log[l + 1].k = "inst" THEN l + 1 ELSE inst
  /\ L' = IF Log[l + 1].k = "load" THEN l + 1 ELSE L
  /\ s' = State(Log[inst'], Log[L'], s, Log[l + 1])
  /\ due' = IF FOCUS = "C03" THEN Due(Log[inst'], Log[L'], s, Log[l + 1], due) ELSE due
  /\ Report(l + 1, CASE FOCUS = "C03" -> RecordCheck(Log[inst'], Log[L'], Log[l + 1], due')
                     \* when and which way the penalty changes
                     [] FOCUS = "C14" -> Check(Log[inst'], Log[L'], s, Log[l + 1]) \cap {"penalty"}
                     [] OTHER -> Check(Log[inst'], Log[L'], s, Log[l + 1]))
  /\ ReportEnd(l + 1)
Spec == Init /\ [][Next]_<<l, inst, L, s, due>>
=============================================================================
