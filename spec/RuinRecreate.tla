---------------------------- MODULE RuinRecreate ----------------------------
(***************************************************************************)
(* Ruin and recreate.                                                      *)
(*                                                                         *)
(* One step removes a string of customers from each of a few routes that   *)
(* are close to a seed customer, and inserts the removed customers again   *)
(* one after the other, each at the cheapest position.                     *)
(***************************************************************************)
EXTENDS CVRP

(***************************************************************************)
(* Ruin: R0 becomes R1.  C.cavg and C.lmax are the configured average      *)
(* number of removed customers and the longest string.                     *)
(***************************************************************************)
\* nearest integer to a / b, halves up
RoundDiv(a, b) == (2 * a + b) \div (2 * b)
\* no string is longer than this, nor than its route; at least one customer is removed
StringBound(I, C, R0) == Min2(RoundDiv(Len(Flatten(R0)), Len(R0)), C.lmax)
\* ks = floor(u (4 cavg / (1 + ls) - 1)) + 1 with 0 <= u < 1
RouteBound(I, C, R0) ==
  LET ls == StringBound(I, C, R0)
      up == CeilDiv(4 * C.cavg, 1 + ls) - 1
  IN  Max2(1, up)

\* the positions in r that are missing in r1, where r1 has the rest in the same order
Missing(r, r1) == {p \in 1..Len(r) : r[p] \notin Range(r1)}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
\* number of runs of consecutive positions
Runs(S) == Cardinality({p \in S : p + 1 \notin S})

OneString(I, C, R0, r, r1) ==
  LET S == Missing(r, r1)
  IN  /\ r1 = [k \in 1..Len(r1) |-> r1[k]]
      /\ SelectSeq(r, LAMBDA x : x \in Range(r1)) = r1
      /\ Cardinality(S) + Len(r1) = Len(r)
      /\ Cardinality(S) <= Max2(1, StringBound(I, C, R0))
      /\ Runs(S) <= 2

\* The ruined routes are the first ones met when going through the other
\* customers by their distance from the seed, and the string is around the
\* customer that was met (which may be in the preserved part).
AroundSeed(I, R0, R1, A) ==
  \E c \in Customers(I) :
    LET near(k) == {x \in Range(R0[k]) \ {c} : \A y \in Range(R0[k]) \ {c} : D(I, c, x) <= D(I, c, y)}
        dist(k) == LET S == near(k) IN IF S = {} THEN 1000000000 ELSE D(I, c, CHOOSE x \in S : TRUE)
        routes == {k \in 1..Len(R0) : near(k) # {}}
        covers(k) == LET S == Missing(R0[k], R1[k]) IN
          \E x \in near(k) : /\ PosIn(R0[k], x) <= SetMax(S)
                             /\ Runs(S) > 1 => PosIn(R0[k], x) >= SetMin(S)
    IN  /\ A \subseteq routes
        /\ \A k \in A : \A j \in routes \ A : dist(k) <= dist(j)
        /\ \A k \in A : covers(k)

RuinChecks(I, C, R0, R1, removed, ruined) ==
  LET A == {k \in 1..Len(R0) : R1[k] # R0[k]}
      shape == Len(R1) = Len(R0) /\ \A k \in A : OneString(I, C, R0, R0[k], R1[k])
  IN  Failing(<<
        <<"strings-removed", shape>>,
        <<"number-of-routes", Cardinality(A) <= RouteBound(I, C, R0)>>,
        <<"something-removed", I.n >= 2 => A # {}>>,
        <<"removed-customers", /\ removed = UNION {Range(R0[k]) : k \in 1..Len(R0)} \ UNION {Range(R1[k]) : k \in 1..Len(R1)}>>,
        <<"ruined-routes", ruined = A>> >>)
      \cup (IF shape /\ A # {} /\ ~AroundSeed(I, R0, R1, A) THEN {"around-a-seed"} ELSE {})

(***************************************************************************)
(* The same constructed step by step, going through the neighbours of the  *)
(* seed customer.                                                          *)
(***************************************************************************)
\* windows of so many positions of a route of length len that contain position p
Windows(len, p, size) == {{a + i : i \in 0..(size - 1)} : a \in Max2(1, p - size + 1)..Min2(len - size + 1, p)}
\* what removing lt customers around position p may remove: a string, or one with a preserved part inside
Removals(len, p, lt) ==
  Windows(len, p, lt) \cup
  IF len = lt THEN {}
  ELSE UNION {UNION {{w \ {b + i : i \in 0..(m - 1)} : b \in {SetMin(w) + i : i \in 0..(lt - 1)}}
                     : w \in Windows(len, p, lt + m)} : m \in 1..(len - lt)}
StringLengths(I, C, R0, r) == 1..Max2(1, Min2(StringBound(I, C, R0), Len(r)))
KeepOnly(r, S) == LET f[k \in 0..Len(r)] == IF k = 0 THEN <<>> ELSE IF k \in S THEN Append(f[k - 1], r[k]) ELSE f[k - 1] IN f[Len(r)]

(***************************************************************************)
(* Recreate: R1 becomes R2 by inserting the removed customers in some      *)
(* order.  The solution after inserting those in S is R2 without the       *)
(* others, so only the sets that can be reached are of interest.           *)
(***************************************************************************)
DetourAt(I, r, p, c) ==
  LET a == IF p = 0 THEN 0 ELSE r[p]
      b == IF p = Len(r) THEN 0 ELSE r[p + 1]
  IN  D(I, a, c) + D(I, c, b) - D(I, a, b)
BestDetour(I, r, c) == LET S == {DetourAt(I, r, p, c) : p \in 0..Len(r)} IN SetMin(S)

\* c goes into route k after position p of the solution R; aff are the affected routes
CheapestPlace(I, P, R, aff, c, k, p) ==
  LET room == {j \in aff : Load(I, R[j]) + Q(I, c) <= I.cap}
      over(j) == P * Max2(0, Load(I, R[j]) + Q(I, c) - I.cap)
  IN  IF room # {}
      THEN k \in room /\ \A j \in room : DetourAt(I, R[k], p, c) <= BestDetour(I, R[j], c)
      ELSE LET mine == DetourAt(I, R[k], p, c) + over(k)
           IN  \A j \in 1..Len(R) : mine <= BestDetour(I, R[j], c) + over(j)

Without(R, S) == [k \in 1..Len(R) |-> SelectSeq(R[k], LAMBDA x : x \notin S)]

\* may c be the next customer after those in S have been inserted?
CanInsert(I, P, R2, removed, ruined, S, c) ==
  LET R == TLCEval(Without(R2, removed \ S))
      k == RouteOf(R2, c)
      p == Cardinality({j \in 1..(PosIn(R2[k], c) - 1) : R2[k][j] \notin removed \/ R2[k][j] \in S})
      aff == ruined \cup {j \in 1..Len(R2) : Range(R2[j]) \cap S # {}}
  IN  CheapestPlace(I, P, R, aff, c, k, p)

RECURSIVE Explained(_, _, _, _, _, _)
\* layer: the sets of that many inserted customers that can be reached
Explained(I, P, R2, removed, ruined, layer) ==
  IF layer = {} THEN FALSE
  ELSE IF removed \in layer THEN TRUE
  ELSE Explained(I, P, R2, removed, ruined,
         TLCEval(UNION {{S \cup {c} : c \in {x \in removed \ S : CanInsert(I, P, R2, removed, ruined, S, x)}} : S \in layer}))

RecreateChecks(I, P, R1, R2, removed, ruined) ==
  LET places == Partition(I, R2) /\ Len(R2) = Len(R1) /\ Without(R2, removed) = R1
  IN  Failing(<< <<"removed-customers-inserted-once", places>> >>)
      \cup (IF places /\ ~Explained(I, P, R2, removed, ruined, {{}}) THEN {"cheapest-insertion"} ELSE {})

(***************************************************************************)
(* What a solution carries along                                           *)
(***************************************************************************)
ValuesOk(I, P, t) == Failing(<<
  <<"kept-distances", t.dist = [k \in 1..Len(t.R) |-> RouteDist(I, t.R[k])]>>,
  <<"kept-overloads", t.over = [k \in 1..Len(t.R) |-> Load(I, t.R[k]) - I.cap]>>,
  <<"kept-cost", t.cost = Cost(I, t.R, P)>>,
  <<"kept-locations", /\ Len(t.loc) = I.n
                      /\ \A x \in Customers(I) : LET k == RouteOf(t.R, x) IN t.loc[x] = <<k, PosIn(t.R[k], x)>> >>,
  <<"nothing-left-over", t.un = 0 /\ t.ru = 0>> >>)

PartialValuesOk(I, t) == Failing(<<
  <<"kept-distances", t.dist = [k \in 1..Len(t.R) |-> RouteDist(I, t.R[k])]>>,
  <<"kept-overloads", t.over = [k \in 1..Len(t.R) |-> Load(I, t.R[k]) - I.cap]>> >>)

(***************************************************************************)
(* The search: from the current solution to a candidate, which is accepted *)
(* or not.  State s:                                                       *)
(*   cur    the current solution (routes)                                  *)
(*   cand   the last candidate, if its acceptance is not known yet         *)
(*   best   the possible best solutions (equally cheap ones)               *)
(*   steps  steps done       P  penalty                                    *)
(***************************************************************************)
Steps(C, n) == RoundDiv(C.g4 * n, 4)

\* which of {TRUE, FALSE} acceptance of the candidate may be
MayAccept(I, P, cur, cand, zero) ==
  IF Cost(I, cand, P) < Cost(I, cur, P) THEN {TRUE}
  ELSE IF zero THEN {FALSE} ELSE {TRUE, FALSE}

BestAfter(I, P, best, cand) ==
  LET c == Cost(I, cand, P)
  IN  {b \in best : Cost(I, b, P) <= c} \cup (IF \E b \in best : Cost(I, b, P) >= c THEN {cand} ELSE {})

\* the penalty in step k of a search that adapts it at every so many steps
AdaptedPenalty(I, P, cur, k, up, every) ==
  IF up /\ k % every = 0 THEN (IF CapacityOk(I, cur) THEN P \div 2 ELSE 2 * P) ELSE P

Nothing == [cur |-> <<>>, cand |-> <<>>, open |-> FALSE, best |-> {}, steps |-> 0, P |-> 0]

\* acceptance of the open candidate becomes known: the search is at R now
Settle(I, C, st, R) ==
  LET may == MayAccept(I, st.P, st.cur, st.cand, C.zero)
      yes == TRUE \in may /\ R = st.cand
      no == FALSE \in may /\ R = st.cur
      b1 == IF yes THEN BestAfter(I, st.P, st.best, st.cand) ELSE {}
      b2 == IF no THEN st.best ELSE {}
  IN  IF ~st.open THEN [ok |-> R = st.cur, st |-> st]
      ELSE [ok |-> yes \/ no, st |-> [st EXCEPT !.cur = R, !.open = FALSE, !.best = b1 \cup b2]]

\* a step proposes candidate R, at the penalty of that step
Propose(I, C, st, R, every) ==
  [st EXCEPT !.cand = R, !.open = TRUE, !.steps = @ + 1,
             !.P = AdaptedPenalty(I, st.P, st.cur, st.steps + 1, C.up, every)]
=============================================================================
