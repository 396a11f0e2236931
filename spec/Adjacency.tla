----------------------------- MODULE Adjacency ------------------------------
(***************************************************************************)
(* Who is visited before and after whom, and the distance between two      *)
(* solutions that is based on it (the broken pairs distance).              *)
(***************************************************************************)
EXTENDS CVRP

SuccIn(r, p) == IF p = Len(r) THEN 0 ELSE r[p + 1]
PredIn(r, p) == IF p = 1 THEN 0 ELSE r[p - 1]
Succ(R, x) == LET k == RouteOf(R, x) IN SuccIn(R[k], PosIn(R[k], x))
Pred(R, x) == LET k == RouteOf(R, x) IN PredIn(R[k], PosIn(R[k], x))

\* the neighbours of each customer: <<predecessor, successor>>
Nbrs(I, R) == [x \in 1..I.n |-> <<Pred(R, x), Succ(R, x)>>]

\* Customers whose successor in A is not next to them in B, plus customers
\* that start a route in A and are not next to the depot in B.
BrokenPairsN(I, a, b) ==
  Cardinality({x \in 1..I.n : a[x][2] # b[x][2] /\ a[x][2] # b[x][1]})
  + Cardinality({x \in 1..I.n : a[x][1] = 0 /\ b[x][1] # 0 /\ b[x][2] # 0})
BrokenPairs(I, A, B) == BrokenPairsN(I, Nbrs(I, A), Nbrs(I, B))

\* A with some of its routes driven the other way round
ReversedSome(A, S) == [k \in 1..Len(A) |-> IF k \in S THEN Reverse(A[k]) ELSE A[k]]
=============================================================================
