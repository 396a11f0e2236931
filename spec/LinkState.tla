----------------------------- MODULE LinkState ------------------------------
(***************************************************************************)
(* What the local search keeps about its linked routes, as a function of   *)
(* the routes they stand for.                                              *)
(*   f, b   the customers of each route, forward and backward              *)
(*   num, dist, load, over, cost    totals of each route                   *)
(*   pos, cd, cl, rt   position, distance and load up to and including it, *)
(*                     and route number, of each customer                  *)
(*   ends   sentinels: closed, with the totals of the route in the end and *)
(*          zero in the start                                              *)
(*   empty  the numbers of the empty routes                                *)
(***************************************************************************)
EXTENDS CVRP

Linked(I, R, P) ==
  [ f    |-> R,
    b    |-> R,
    num  |-> [k \in 1..Len(R) |-> Len(R[k])],
    dist |-> [k \in 1..Len(R) |-> RouteDist(I, R[k])],
    load |-> [k \in 1..Len(R) |-> Load(I, R[k])],
    over |-> [k \in 1..Len(R) |-> Load(I, R[k]) - I.cap],
    cost |-> [k \in 1..Len(R) |-> RouteCost(I, R[k], P)],
    pos  |-> [k \in 1..Len(R) |-> [p \in 1..Len(R[k]) |-> p]],
    cd   |-> [k \in 1..Len(R) |-> [p \in 1..Len(R[k]) |-> PathTo(I, R[k], p)]],
    cl   |-> [k \in 1..Len(R) |-> [p \in 1..Len(R[k]) |-> LoadTo(I, R[k], p)]],
    rt   |-> [k \in 1..Len(R) |-> [p \in 1..Len(R[k]) |-> k]],
    ends |-> [k \in 1..Len(R) |-> <<TRUE, RouteDist(I, R[k]), Load(I, R[k]), 0, 0, k, k>>],
    empty |-> {k \in 1..Len(R) : Len(R[k]) = 0} ]

\* Disagreements between recorded link state s and routes R
LinkedDiff(I, R, P, s) ==
  IF s.f # R THEN {"forward-links"}
  ELSE LET w == Linked(I, R, P)
       IN  {x \in {"b", "num", "dist", "load", "over", "cost", "pos", "cd", "cl", "rt", "ends"} :
              s[x] # w[x]}
           \cup (IF Range(s.empty) = w.empty THEN {} ELSE {"empty"})
=============================================================================
