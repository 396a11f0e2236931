---------------------------- MODULE Decomposition ---------------------------
(***************************************************************************)
(* Taking a subproblem out of a solution and putting its result back.      *)
(*                                                                         *)
(* A mapping m is a sequence of nodes: node k of the subproblem is node    *)
(* m[k + 1] of the problem; the depot comes first.                         *)
(***************************************************************************)
EXTENDS CVRP

MapRoute(m, r) == [k \in 1..Len(r) |-> m[r[k] + 1]]
MapRoutes(m, R) == [k \in 1..Len(R) |-> MapRoute(m, R[k])]

\* m names the depot and then different customers
IsMapping(I, m) ==
  /\ Len(m) >= 2
  /\ m[1] = 0
  /\ Range(Tail(m)) \subseteq Customers(I)
  /\ Cardinality(Range(Tail(m))) = Len(m) - 1

\* the problem of the depot and the customers of m
SubProblem(I, m) ==
  [n |-> Len(m) - 1, cap |-> I.cap, N |-> I.N,
   q |-> [k \in 1..Len(m) |-> Q(I, m[k])],
   d |-> [a \in 1..Len(m) |-> [b \in 1..Len(m) |-> D(I, m[a], m[b])]]]

\* some of the routes of R are taken out of it: the rest is left, in any order
TakenOut(R, taken, left) ==
  /\ RouteSet(taken) # {}
  /\ RouteSet(taken) \cap RouteSet(left) = {}
  /\ RouteSet(taken) \cup RouteSet(left) = RouteSet(R)
  /\ NumNonEmpty(taken) + NumNonEmpty(left) = NumNonEmpty(R)

\* what putting the routes S of the subproblem back gives, up to the order of the routes
PutBack(I, m, S, left, R) ==
  /\ Len(R) = I.N
  /\ RouteSet(R) = RouteSet(left) \cup RouteSet(MapRoutes(m, S))
  /\ NumNonEmpty(R) = NumNonEmpty(left) + NumNonEmpty(S)

\* all customers of a tour are those of the routes
IsTourOf(g, R) == Len(g) = Len(Flatten(R)) /\ Range(g) = Range(Flatten(R))

\* b may take the place of a
NotWorse(I, a, b) == CapacityOk(I, a) => CapacityOk(I, b) /\ Distance(I, b) <= Distance(I, a)
=============================================================================
