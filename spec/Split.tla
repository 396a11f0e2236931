------------------------------- MODULE Split --------------------------------
(***************************************************************************)
(* Splitting a customer sequence G into consecutive routes.                *)
(***************************************************************************)
EXTENDS CVRP

Inf == 1000000000
Plus(a, b) == IF a >= Inf \/ b >= Inf THEN Inf ELSE a + b

\* the piece of G after position i up to position j, and its cost if it may be a route
Piece(G, i, j) == SubSeq(G, i + 1, j)
\* limit: largest load of a route, -1 for none
PieceCost(I, G, P, limit, i, j) ==
  LET r == Piece(G, i, j)
  IN  IF limit >= 0 /\ Load(I, r) > limit THEN Inf ELSE RouteCost(I, r, P)

PieceCosts(I, G, P, limit) ==
  [i \in 0..(Len(G) - 1) |-> [j \in 1..Len(G) |->
     IF j <= i THEN Inf ELSE PieceCost(I, G, P, limit, i, j)]]

(***************************************************************************)
(* Cheapest split into at most K routes: shortest path with at most K      *)
(* edges in the graph of all pieces.                                       *)
(***************************************************************************)
RECURSIVE MinFrom(_, _, _, _)
MinFrom(C, f, i, j) ==
  IF i < 0 THEN Inf ELSE Min2(Plus(f[i], C[i][j]), MinFrom(C, f, i - 1, j))

RECURSIVE Relax(_, _, _, _)
\* f[j]: cheapest way to serve the first j customers with at most so many routes
Relax(C, n, f, K) ==
  IF K = 0 THEN f
  ELSE Relax(C, n, TLCEval([j \in 0..n |-> IF j = 0 THEN 0 ELSE Min2(f[j], MinFrom(C, f, j - 1, j))]), K - 1)

BestSplit(I, G, K, P, limit) ==
  LET n == Len(G)
      C == TLCEval(PieceCosts(I, G, P, limit))
  IN  Relax(C, n, [j \in 0..n |-> IF j = 0 THEN 0 ELSE Inf], K)[n]

\* The same by enumeration of all sets of cut positions
RECURSIVE CutsCost(_, _, _, _, _, _)
CutsCost(I, G, P, limit, cuts, i) ==
  IF i = Len(G) THEN 0
  ELSE LET j == CHOOSE x \in cuts \cup {Len(G)} : x > i /\ \A y \in cuts : y > i => y >= x
       IN  Plus(PieceCost(I, G, P, limit, i, j), CutsCost(I, G, P, limit, cuts, j))
SplitsWithin(G, K) == {cuts \in SUBSET (1..(Len(G) - 1)) : Cardinality(cuts) + 1 <= K}
BestSplitByEnumeration(I, G, K, P, limit) ==
  LET costs == {CutsCost(I, G, P, limit, cuts, 0) : cuts \in SplitsWithin(G, K)}
  IN  CHOOSE x \in costs : \A y \in costs : x <= y

\* The routes are consecutive pieces of G that together are all of G
IsSplitOf(R, G) ==
  /\ Range(Flatten(R)) = Range(G) /\ Len(Flatten(R)) = Len(G)
  /\ \A k \in 1..Len(R) : Len(R[k]) > 0 =>
       LET p == IndexIn(G, R[k][1]) IN p + Len(R[k]) - 1 <= Len(G) /\ R[k] = SubSeq(G, p, p + Len(R[k]) - 1)

\* the routes allowed in a split: as asked, but not fewer than the load needs
RouteLimit(I, K) == Max2(K, LowerBound(I))

\* The cost of the split the solver must find. fac: load limit of the simple
\* split as a fraction of the capacity. If that leaves no split with so few
\* routes, the limit does not count.
SplitCost(I, G, K, P, linear, fac) ==
  LET limited == IF linear THEN Inf
                 ELSE BestSplit(I, G, RouteLimit(I, K), P, (I.cap * fac[1]) \div fac[2])
  IN  IF limited < Inf THEN limited ELSE BestSplit(I, G, RouteLimit(I, K), P, -1)
=============================================================================
