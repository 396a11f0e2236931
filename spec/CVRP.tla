-------------------------------- MODULE CVRP --------------------------------
(***************************************************************************)
(* The problem HybridCVRP solves, as plain mathematics.  Every other       *)
(* module is stated in terms of these definitions.                         *)
(*                                                                         *)
(* An instance I is a record                                               *)
(*   n    number of customers; the customers are 1..n, 0 is the depot      *)
(*   d    distances, d[i+1][j+1] for nodes i, j in 0..n                    *)
(*   q    demands,   q[i+1] for node i (0 for the depot)                   *)
(*   cap  vehicle capacity                                                 *)
(*   N    number of vehicles of the fleet                                  *)
(* All quantities are integers: distances and costs are scaled by a factor *)
(* S, demands by a factor Q, and a penalty P is the penalty per unit of    *)
(* scaled demand in scaled cost, so that the arithmetic is exact.          *)
(*                                                                         *)
(* A route is a sequence of customers, a solution a sequence of routes.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* the names of the failing checks of a sequence of <<name, ok>>
Failing(checks) == {checks[k][1] : k \in {j \in DOMAIN checks : ~checks[j][2]}}

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a >= 0 THEN a ELSE 0 - a

Customers(I) == 1..I.n
D(I, i, j) == I.d[i + 1][j + 1]
Q(I, i) == I.q[i + 1]

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
SumSeq(s) == SumTo(s, Len(s))

RECURSIVE MinTo(_, _)
MinTo(s, k) == IF k = 1 THEN s[1] ELSE Min2(s[k], MinTo(s, k - 1))
MinSeq(s) == MinTo(s, Len(s))

RECURSIVE FlattenTo(_, _)
FlattenTo(R, k) == IF k = 0 THEN <<>> ELSE FlattenTo(R, k - 1) \o R[k]
Flatten(R) == FlattenTo(R, Len(R))

Reverse(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Range(s) == {s[k] : k \in 1..Len(s)}
Prefix(s, k) == SubSeq(s, 1, k)
Suffix(s, k) == SubSeq(s, k, Len(s))       \* from position k on
InsertAfter(s, k, e) == SubSeq(s, 1, k) \o e \o SubSeq(s, k + 1, Len(s))
RemoveAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Drop(s, x) == SelectSeq(s, LAMBDA e : e # x)
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
IndexIn(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x

(***************************************************************************)
(* Routes                                                                  *)
(***************************************************************************)
RECURSIVE PathTo(_, _, _)
PathTo(I, r, k) == IF k = 1 THEN D(I, 0, r[1]) ELSE PathTo(I, r, k - 1) + D(I, r[k - 1], r[k])

\* An empty route stays in the depot.
RouteDist(I, r) == IF Len(r) = 0 THEN D(I, 0, 0) ELSE PathTo(I, r, Len(r)) + D(I, r[Len(r)], 0)

RECURSIVE LoadTo(_, _, _)
LoadTo(I, r, k) == IF k = 0 THEN 0 ELSE LoadTo(I, r, k - 1) + Q(I, r[k])
Load(I, r) == LoadTo(I, r, Len(r))
Excess(I, r) == Max2(0, Load(I, r) - I.cap)
RouteCost(I, r, P) == RouteDist(I, r) + P * Excess(I, r)

(***************************************************************************)
(* Solutions                                                               *)
(***************************************************************************)
RECURSIVE CostTo(_, _, _, _)
CostTo(I, R, P, k) == IF k = 0 THEN 0 ELSE CostTo(I, R, P, k - 1) + RouteCost(I, R[k], P)
Cost(I, R, P) == CostTo(I, R, P, Len(R))

RECURSIVE DistTo(_, _, _)
DistTo(I, R, k) == IF k = 0 THEN 0 ELSE DistTo(I, R, k - 1) + RouteDist(I, R[k])
Distance(I, R) == DistTo(I, R, Len(R))

CapacityOk(I, R) == \A k \in 1..Len(R) : Load(I, R[k]) <= I.cap

\* Every customer exactly once, and nothing else.
Partition(I, R) ==
  LET f == Flatten(R)
  IN  /\ Len(f) = I.n
      /\ Range(f) = Customers(I)

Feasible(I, R) == Partition(I, R) /\ CapacityOk(I, R)

NonEmpty(R) == SelectSeq(R, LAMBDA r : Len(r) > 0)
NumNonEmpty(R) == Len(NonEmpty(R))

\* The routes as a bag: how often each non-empty route occurs.  Routes of a
\* solution that serves every customer once are pairwise different.
RouteSet(R) == {R[k] : k \in {j \in 1..Len(R) : Len(R[j]) > 0}}
SameRoutes(R1, R2) == RouteSet(R1) = RouteSet(R2) /\ NumNonEmpty(R1) = NumNonEmpty(R2)

TotalDemand(I) == SumSeq(I.q)
CeilDiv(a, b) == (a + b - 1) \div b
LowerBound(I) == CeilDiv(TotalDemand(I), I.cap)
\* 20 percent and two vehicles more than the lower bound, rounded up
FleetSize(I) == CeilDiv(6 * LowerBound(I) + 10, 5)

\* Triangle inequality and symmetry
Metric(I) ==
  \A a, b, c \in 0..I.n : /\ D(I, a, b) <= D(I, a, c) + D(I, c, b)
                          /\ D(I, a, b) = D(I, b, a)
                          /\ D(I, a, a) = 0

\* where customer x is: <<route, position>>
RouteOf(R, x) == CHOOSE k \in 1..Len(R) : \E p \in 1..Len(R[k]) : R[k][p] = x
PosIn(r, x) == CHOOSE p \in 1..Len(r) : r[p] = x
=============================================================================
