-------------------------------- MODULE T_GA --------------------------------
(* Recorded runs of the genetic algorithm of the real code against Genetic *)
(* (FOCUS names the property whose disagreements are reported).            *)
EXTENDS TraceBase, Genetic

FOCUS == IOEnv.FOCUS

\* g: life of the run (see Genetic), mem: distance and excess of the members
VARIABLES l, inst, g, mem

\* beyond what Genetic says of a life: lo, a bound of what its best solution costs, which is
\* below lb if a solution has not been seen; bi, the possible generations of its last improvement
NewRun == NewLife @@ [npu |-> 0, bi |-> {0}, lo |-> Infinite]
Placed(y) == [y EXCEPT !.bi = {@}] @@ [lo |-> y.lb]

\* a run begins, or is put into a state given by the specification (t.g)
Begins(t) == t.k \in {"start", "set"}

Members(t) == Range(t.fe.m) \cup Range(t["in"].m)
SameMembers(p, t) == p.fe = t.fe /\ p["in"] = t["in"] /\ p.tot = t.tot
Added(p, t) == t.tot - p.tot

\* What the step from record p to record t was
Generation(p, t) == t.ci # p.ci
Restarted(p, t) == Generation(p, t) /\ t.tot = 0
Initial(p, t) == ~Generation(p, t) /\ t.ni # p.ni
Quiet(p, t) == /\ ~Generation(p, t) /\ ~Initial(p, t)
               /\ SameMembers(p, t) /\ t.P = p.P /\ t.hc = p.hc /\ t.child = p.child /\ "same" \in Range(t.cls)
Elite(p, t) == ~Generation(p, t) /\ ~Initial(p, t) /\ ~Quiet(p, t)

\* cheapest feasible member after the step
Lowest(t) == IF t.fe.c = <<>> THEN Infinite ELSE t.fe.c[1]

\* the same, or that of the solution just worked on
LowestNow(C, p, t) ==
  LET fresh == Generation(p, t) \/ (C.elite /\ t.ni = 0)
  IN  IF fresh /\ t.child # <<>> /\ t.child[1].x THEN Min2(Lowest(t), t.child[1].c) ELSE Lowest(t)

\* A feasible solution has been found that is not seen: neither the child nor a member after the
\* step, having been removed at once (as a clone, perhaps, which need not cost the same)
Unseen(C, p, t) ==
  LET fresh == Generation(p, t) \/ (C.elite /\ t.ni = 0)
      feasible(x) == x < t.tot - 1 \/ (~fresh /\ (Initial(p, t) => t.w[3] = 1))
  IN  ~Restarted(p, t) /\ \E x \in p.tot..(t.tot - 1) : x \notin Members(t) /\ feasible(x)
\* the generations of the last improvement, as far as is known
Improvements(C, p, t, s) ==
  LET low == LowestNow(C, p, t)
  IN  IF low < s.lo THEN {p.it}
      ELSE IF low < s.lb \/ Unseen(C, p, t) THEN s.bi \cup {p.it}
      ELSE s.bi

(***************************************************************************)
(* How the state of the run moves on                                       *)
(***************************************************************************)
Mem(p, t, m) ==
  LET new == {k \in DOMAIN t.new : TRUE}
      I == Log[inst]
      val(k) == LET R == t.new[k].R IN <<Distance(I, R), SumSeq([j \in 1..Len(R) |-> Excess(I, R[j])]), t.new[k].g>>
      nums == {t.new[k].m : k \in new}
      at(x) == CHOOSE k \in new : t.new[k].m = x
  IN  TLCEval([x \in Members(t) |-> IF x \in nums THEN val(at(x)) ELSE m[x]])

\* feasibility of the individual that was added last: of the child in a generation,
\* and otherwise where it has been put, if it is still there (both are possible if not)
LastAdded(p, t) ==
  IF Generation(p, t) THEN {IF t.child[1].x THEN 1 ELSE 0}
  ELSE IF t.tot - 1 \in Range(t.fe.m) THEN {1}
  ELSE IF t.tot - 1 \in Range(t["in"].m) THEN {0} ELSE {0, 1}

Life(C, p, t, s) ==
  IF Restarted(p, t) THEN NewLife @@ [npu |-> p.it, bi |-> {p.it}, lo |-> Infinite]
  ELSE LET low == LowestNow(C, p, t)
           \* a solution that has not been seen costs no less than the best ever
           hidden == IF Unseen(C, p, t) /\ t.hb # 0 - 1 THEN t.hb ELSE Infinite
           \* only those that explain that there has been no restart
           bi == Improvements(C, p, t, s)
           left == IF Generation(p, t) THEN {b \in bi : ~RestartDue(C, p.it, b)} ELSE bi
           base == [s EXCEPT !.lb = Min2(@, low), !.lo = Min2(@, Min2(low, hidden)),
                             !.bi = IF left = {} THEN bi ELSE left, !.ni = t.ni]
       IN  IF Generation(p, t)
           THEN [base EXCEPT !.w = Push(@, t.w[3]),
                             !.npu = IF UpdateDue(p.it, s.npu) THEN @ + C.interval ELSE @]
           ELSE IF Initial(p, t) THEN [base EXCEPT !.w = Push(@, t.w[3])]
           ELSE IF Quiet(p, t) THEN [base EXCEPT !.idle = @ + 1] ELSE [base EXCEPT !.el = @ + 1]

(***************************************************************************)
(* C01, C03: what is recorded                                              *)
(***************************************************************************)
RecordChecks(I, t) == Failing(<<
  <<"recorded-solution-is-feasible", \A k \in DOMAIN t.recs : t.recs[k].seen => Feasible(I, t.recs[k].R)>>,
  <<"recorded-cost-is-the-distance", \A k \in DOMAIN t.recs : t.recs[k].seen => t.recs[k].c = Distance(I, t.recs[k].R)>>,
  <<"delivered-solution-is-feasible", t.hc # <<>> => Feasible(I, t.hl) /\ t.hc[Len(t.hc)] = Distance(I, t.hl)>>,
  <<"best-individual-is-feasible", \A k \in DOMAIN t.bs : Feasible(I, t.bs[k].R)>>,
  <<"fleet", t.hc # <<>> => Len(t.hl) <= I.N>> >>)

HistoryChecks(p, t) == Failing(<<
  <<"earlier-records-stay", Len(p.hc) <= Len(t.hc) /\ SubSeq(t.hc, 1, Len(p.hc)) = p.hc>>,
  <<"recorded-routes-stay", Len(p.hc) = Len(t.hc) => p.hl = t.hl>>,
  <<"records-improve", \A k \in 1..(Len(t.hc) - 1) : t.hc[k + 1] < t.hc[k]>>,
  <<"best-cost-is-the-last", t.hb = IF t.hc = <<>> THEN 0 - 1 ELSE t.hc[Len(t.hc)]>>,
  <<"no-better-member", \A k \in DOMAIN t.fe.c : t.hb # 0 - 1 /\ t.fe.c[k] >= t.hb>>,
  <<"no-better-offspring", \A k \in DOMAIN t.child : t.child[k].x => t.hb # 0 - 1 /\ t.child[k].c >= t.hb>>,
  <<"no-better-working-best", \A k \in DOMAIN t.rrb : t.rrb[k].x => t.hb # 0 - 1 /\ t.rrb[k].c >= t.hb>>,
  <<"no-better-new-member", \A k \in DOMAIN t.new : t.new[k].x => t.hb # 0 - 1 /\ t.new[k].c >= t.hb>> >>)

(***************************************************************************)
(* C13: phases and limits                                                  *)
(***************************************************************************)
Unchanged(p, t) ==
  /\ SameMembers(p, t) /\ t.P = p.P /\ t.hc = p.hc /\ t.hl = p.hl /\ t.child = p.child
  /\ t.ci = p.ci /\ t.it = p.it /\ t.ni = p.ni /\ t.w = p.w /\ "same" \in Range(t.cls)

PhaseChecks(C, p, t, s, s2) ==
  LET limit == p.ci >= C.maxit
      over == t.e0 >= C.tl
      under == t.e1 < C.tl
  IN IF Begins(t) THEN {}
     ELSE IF p.t THEN Failing(<< <<"nothing-after-the-end", t.t /\ Unchanged(p, t)>> >>)
     ELSE IF t.k = "far" THEN Failing(<< <<"time-limit", (over => t.t) /\ (under => ~t.t)>> >>)
     ELSE IF t.t THEN Failing(<<
            <<"stops-only-at-a-limit", limit \/ ~under>>,
            <<"no-work-at-the-end", Unchanged(p, t)>> >>)
     ELSE Failing(<<
       <<"stops-at-the-iteration-limit", ~limit>>,
       <<"stops-at-the-time-limit", ~over>>,
       <<"one-generation-per-step", Generation(p, t) =>
            /\ t.ci = p.ci + 1 /\ t.it = p.it + 1
            /\ ~Restarted(p, t) => Added(p, t) \in {1, 2} /\ t.ni = p.ni>>,
       <<"initial-individuals-first", Generation(p, t) => p.ni = C.ini>>,
       <<"one-initial-individual-per-step", Initial(p, t) =>
            /\ t.ni = p.ni + 1 /\ Added(p, t) \in {1, 2} /\ t.it = p.it>>,
       <<"as-many-as-configured", Initial(p, t) => p.ni < C.ini>>,
       <<"idle", s2.idle <= 3 + (IF C.elite THEN 6 ELSE 0)>>,
       <<"elite-phase-first", Elite(p, t) => C.elite /\ p.ni = 0 /\ Added(p, t) \in 0..2 /\ t.it = p.it>>,
       <<"restart-when-due", Generation(p, t) =>
            \E b \in Improvements(C, p, t, s) : Restarted(p, t) = RestartDue(C, p.it, b)>>,
       <<"restart-from-scratch", Restarted(p, t) => t.ni = 0 /\ Members(t) = {} /\ t.w[2] = 100>>,
       <<"records-survive", SubSeq(t.hc, 1, Len(p.hc)) = p.hc>> >>)

(***************************************************************************)
(* C14: the penalty                                                        *)
(***************************************************************************)
CostAt(m, P) == m[1] + P * m[2]
PenaltyChecks(C, p, t, s, s2, m) ==
  IF t.k = "far" THEN Failing(<< <<"bounds", t.bnd>> >>)
  ELSE IF Begins(t) THEN {}
  ELSE LET due == UpdateDue(p.it, s.npu)
           \* after a restart the window is a new one
           w2 == Push(s.w, IF Restarted(p, t) THEN CHOOSE b \in LastAdded(p, t) : TRUE ELSE t.w[3])
  IN Failing(<<
       \* (the elite phase, which leaves the initial penalty behind, knows no bounds)
       <<"bounds", (C.elite /\ t.ni = 0 /\ ~Generation(p, t)) \/ t.bnd>>,
       \* the search of the elite phase is over: it starts again at the initial one
       <<"initial-after-elite-education", Elite(p, t) /\ ~t.t /\ s.el > 0 /\ p.rrd => t.pini>>,
       <<"changes-only-when-due", ~Elite(p, t) /\ ~(Generation(p, t) /\ due) => "same" \in Range(t.cls)>>,
       <<"direction", Generation(p, t) /\ due => Range(t.cls) \cap Directions(C, w2) # {}>>,
       <<"share-of-the-last-hundred", t.w[1] = 100 /\ t.w[2] = CountOnes(s2.w)>>,
       <<"share-counts-those-added", (Generation(p, t) /\ ~Restarted(p, t)) \/ Initial(p, t) => t.w[3] \in LastAdded(p, t)>>,
       <<"infeasible-members-cost", C.grid /\ t.P > 0 => \A k \in DOMAIN t["in"].m : t["in"].c[k] = CostAt(m[t["in"].m[k]], t.P)>>,
       <<"infeasible-members-sorted", (C.grid /\ t.P > 0) \/ (Generation(p, t) /\ due /\ t.P > 0) =>
            \A k \in 1..(Len(t["in"].c) - 1) : t["in"].c[k] <= t["in"].c[k + 1]>> >>)

SetMaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
\* the initial penalty; a distance in units of 1 and a demand in units of 1 / Q
InitialPenalty(I, t) ==
  LET md == SetMaxOf({D(I, a, b) : a, b \in 0..I.n})
      mq == SetMaxOf({Q(I, a) : a \in 0..I.n})
      \* md / (mq / Q) against 10000 and 1/10000
      high == mq = 0 \/ (md * I.Q) \div 10000 >= mq
      low == ~high /\ (mq - 1) \div 10000 >= md * I.Q
      x == IF high \/ low THEN 0 ELSE (md * I.Q * 1024) \div mq
  IN  IF ~t.pre THEN t.hundred
      ELSE IF high THEN t.high ELSE IF low THEN t.low
      ELSE t.p - x \in {0 - 1, 0, 1}

(***************************************************************************)
(* C08: crossover.  Without local search and ruin-and-recreate the child   *)
(* is the split of the offspring's tour.                                   *)
(***************************************************************************)
CrossoverChecks(I, p, t, m) ==
  LET tours == {m[x][3] : x \in Members(p)}
  IN Failing(<<
       <<"permutation", \A k \in DOMAIN t.child : Partition(I, t.child[k].R) /\ Range(t.child[k].g) = Customers(I)
                                                   /\ Len(t.child[k].g) = I.n>>,
       \* (many steps before a "far" record: there may have been a restart)
       <<"members-unchanged", t.k = "far" \/ t.changed = <<>> >>,
       <<"order-crossover", t.k = "it" /\ Generation(p, t) /\ I.ox = 1 =>
            \E x \in ToursOf(t.child[1].R) : IsChild(x, tours)>> >>)

(***************************************************************************)
(* C11: the populations                                                    *)
(***************************************************************************)
PopulationChecks(C, t) == Failing(<<
  <<"feasible-ones-sorted", \A k \in 1..(Len(t.fe.c) - 1) : t.fe.c[k] <= t.fe.c[k + 1]>>,
  <<"infeasible-ones-sorted", C.grid /\ t.P > 0 => \A k \in 1..(Len(t["in"].c) - 1) : t["in"].c[k] <= t["in"].c[k + 1]>>,
  <<"classes", /\ \A k \in DOMAIN t.fe.x : t.fe.x[k]
               /\ \A k \in DOMAIN t["in"].x : ~t["in"].x[k]>>,
  <<"identities", Cardinality(Members(t)) = Len(t.fe.m) + Len(t["in"].m)>>,
  <<"sizes", Len(t.fe.m) < C.max /\ Len(t["in"].m) < C.max>> >>)

(***************************************************************************)
(* C10: the genetic algorithm goes on with the best solution of a search   *)
(***************************************************************************)
Used(R) == {R[k] : k \in DOMAIN R} \ {<<>>}
SearchChecks(C, p, t, s) ==
  IF Begins(t) \/ t.k = "far" \/ t.rrb = <<>> THEN {}
  ELSE LET best == Used(t.rrb[1].R)
           added == {k \in DOMAIN t.new : t.new[k].m = t.tot - 1}
       IN Failing(<<
            <<"child-is-the-best-of-the-search",
              Generation(p, t) /\ ~Restarted(p, t) /\ t.rrn > 0 => Used(t.child[1].R) = best>>,
            <<"initial-individual-is-the-best-of-the-search",
              Initial(p, t) /\ t.rrn > 0 => \A k \in added : Used(t.new[k].R) = best>>,
            \* the step after the last one of the elite phase
            <<"elite-individual-is-the-best-of-the-search",
              Elite(p, t) /\ s.el > 0 /\ p.rrd => Used(t.child[1].R) = best /\ \A k \in added : Used(t.new[k].R) = best>> >>)

(***************************************************************************)
(* The walk                                                                *)
(***************************************************************************)
Check(C, p, t, s, s2, m, m2) ==
  CASE t.k \in {"inst", "end", "screened"} -> {}
    [] t.k = "hang" -> {"the-run-does-not-end"}
    [] t.k = "pen" -> IF FOCUS = "C14" /\ ~InitialPenalty(t, t) THEN {"initial-penalty"} ELSE {}
    [] OTHER ->
       CASE FOCUS = "C01" -> RecordChecks(C, t)
         [] FOCUS = "C03" -> HistoryChecks(p, t)
         [] FOCUS = "C08" -> CrossoverChecks(C, p, t, m)
         [] FOCUS = "C10" -> SearchChecks(C, p, t, s)
         [] FOCUS = "C11" -> PopulationChecks(C, t)
         [] FOCUS = "C13" -> PhaseChecks(C, p, t, s, s2)
         [] FOCUS = "C14" -> PenaltyChecks(C, p, t, s, s2, m2)

IsRun(t) == t.k \in {"start", "set", "it", "far"}
Init == l = 0 /\ inst = 1 /\ g = NewRun /\ mem = <<>>
Next ==
  /\ l < TraceLen
  /\ l' = l + 1
  /\ LET t == Log[l + 1]
         p == IF Begins(t) \/ ~IsRun(t) THEN t ELSE Log[l]
     IN /\ inst' = IF t.k \in {"inst", "pen"} THEN l + 1 ELSE inst
        /\ g' = IF t.k = "set" THEN Placed(t.g) ELSE IF ~IsRun(t) \/ t.k = "start" THEN NewRun
                ELSE IF t.k = "far" THEN g ELSE TLCEval(Life(Log[inst], p, t, g))
        /\ mem' = IF IsRun(t) THEN Mem(p, t, IF Begins(t) THEN <<>> ELSE mem) ELSE <<>>
        /\ Report(l + 1, Check(Log[inst'], p, t, g, g', mem, mem'))
        /\ ReportEnd(l + 1)
Spec == Init /\ [][Next]_<<l, inst, g, mem>>
=============================================================================
