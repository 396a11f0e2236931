------------------------------- MODULE Genetic ------------------------------
(***************************************************************************)
(* The course of a run of the genetic algorithm, as a state machine over   *)
(*                                                                         *)
(*   ci    generations of the run        it    generations counted by the  *)
(*   ni    initial individuals of            algorithm itself              *)
(*         this life (a life ends with a restart)                          *)
(*   npu   generation at which the penalty is looked at again              *)
(*   bi    generation of the last improvement in this life                 *)
(*   lb    cost of the best feasible solution of this life                 *)
(*   w     feasibility of the last hundred individuals added (1 or 0)      *)
(*   idle  steps of this life in which nothing happened                    *)
(*                                                                         *)
(* C is the setting: ini, maxit, noimp, interval, target (in percent).     *)
(***************************************************************************)
EXTENDS CVRP

Infinite == 2147483647

NewLife == [ni |-> 0, lb |-> Infinite, w |-> [k \in 1..100 |-> 1], idle |-> 0, el |-> 0]

Push(w, x) == Append(Tail(w), x)
CountOnes(w) == Cardinality({k \in 1..Len(w) : w[k] = 1})

(***************************************************************************)
(* The penalty: which changes are right, given how many of the last        *)
(* (hundred) were feasible.  Exactly five points away either is accepted.  *)
(***************************************************************************)
Directions(C, w) ==
  LET c == 100 * CountOnes(w)
      lo == (C.target - 5) * Len(w)
      hi == (C.target + 5) * Len(w)
  IN  IF c < lo THEN {"inc"} ELSE IF c = lo THEN {"inc", "same"}
      ELSE IF c > hi THEN {"dec"} ELSE IF c = hi THEN {"dec", "same"}
      ELSE {"same"}

UpdateDue(it, npu) == it >= npu

(***************************************************************************)
(* Restart: more than C.noimp generations since the last improvement       *)
(***************************************************************************)
RestartDue(C, it, bi) == it - bi > C.noimp

(***************************************************************************)
(* The records: every solution an algorithm finds is offered to them.      *)
(*   lb  cost of the best feasible solution offered in this life           *)
(*   hc  costs of the recorded solutions     hl  the last of them          *)
(***************************************************************************)
NoRecords == [lb |-> Infinite, hc |-> <<>>, hl |-> <<>>]
BestRecorded(s) == IF s.hc = <<>> THEN Infinite ELSE s.hc[Len(s.hc)]
Offer(I, s, R) ==
  IF ~Feasible(I, R) \/ Distance(I, R) >= s.lb THEN s
  ELSE LET c == Distance(I, R)
           new == c < BestRecorded(s)
       IN  [lb |-> c, hc |-> IF new THEN Append(s.hc, c) ELSE s.hc, hl |-> IF new THEN R ELSE s.hl]
\* a restart forgets the life, and keeps the records
Restarting(s) == [s EXCEPT !.lb = Infinite]

(***************************************************************************)
(* Order crossover                                                         *)
(***************************************************************************)
\* positions of the section from s to e, wrapping around
Section(n, s, e) == IF s <= e THEN s..e ELSE (s..n) \cup (1..e)
\* the other positions, starting right after the section
RestOfTour(n, s, e) ==
  LET len == n - Cardinality(Section(n, s, e))
  IN  [k \in 1..len |-> ((e + k - 1) % n) + 1]
OX(p1, p2, s, e) ==
  LET n == Len(p1)
      sec == Section(n, s, e)
      kept == {p1[k] : k \in sec}
      fill == SelectSeq(p2, LAMBDA x : x \notin kept)
      rest == RestOfTour(n, s, e)
  IN  [k \in 1..n |-> IF k \in sec THEN p1[k] ELSE fill[CHOOSE j \in 1..Len(rest) : rest[j] = k]]

Cuts(n) == IF n = 1 THEN {<<1, 1>>} ELSE {c \in (1..n) \X (1..n) : c[1] # c[2]}

\* is g a child of two of the given tours?
IsChild(g, tours) ==
  LET n == Len(g)
  IN  \E p1 \in tours : \E c \in Cuts(n) :
        /\ \A k \in Section(n, c[1], c[2]) : g[k] = p1[k]
        /\ LET kept == {p1[k] : k \in Section(n, c[1], c[2])}
               rest == RestOfTour(n, c[1], c[2])
               fill == [k \in 1..Len(rest) |-> g[rest[k]]]
           IN  \E p2 \in tours : SelectSeq(p2, LAMBDA x : x \notin kept) = fill

\* the tours whose pieces the routes of R may be, in any order
RECURSIVE Orders(_)
Orders(S) == IF S = {} THEN {<<>>} ELSE UNION {{Append(o, x) : o \in Orders(S \ {x})} : x \in S}
ToursOf(R) == LET N == RouteSet(R) IN {Flatten(o) : o \in Orders(N)}
=============================================================================
