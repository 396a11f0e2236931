------------------------------ MODULE SwapStar ------------------------------
(***************************************************************************)
(* SWAP*: the best exchange of one customer of route a against one of      *)
(* route b, each reinserted anywhere in the other route, or relocation of  *)
(* one customer to the other route.                                        *)
(***************************************************************************)
EXTENDS CVRP

\* cost of inserting x into r after position p
InsertCost(I, r, p, x) ==
  LET i == IF p = 0 THEN 0 ELSE r[p]
      j == IF p = Len(r) THEN 0 ELSE r[p + 1]
  IN  D(I, i, x) + D(I, x, j) - (IF Len(r) = 0 THEN 0 ELSE D(I, i, j))

RECURSIVE BestInsertTo(_, _, _, _)
BestInsertTo(I, r, x, p) ==
  IF p = 0 THEN InsertCost(I, r, 0, x)
  ELSE Min2(InsertCost(I, r, p, x), BestInsertTo(I, r, x, p - 1))
BestInsert(I, r, x) == BestInsertTo(I, r, x, Len(r))

PairCost(I, a, b, P) == RouteCost(I, a, P) + RouteCost(I, b, P)

Pen(I, load, P) == P * Max2(0, load - I.cap)

\* cheapest result of exchanging u = a[i] and v = b[j]; of moving a[i] to b
SwapCost(I, a, b, i, j, P) ==
  LET ra == RemoveAt(a, i)
      rb == RemoveAt(b, j)
  IN  RouteDist(I, ra) + BestInsert(I, ra, b[j]) + RouteDist(I, rb) + BestInsert(I, rb, a[i])
      + Pen(I, Load(I, a) - Q(I, a[i]) + Q(I, b[j]), P)
      + Pen(I, Load(I, b) - Q(I, b[j]) + Q(I, a[i]), P)
MoveCost(I, a, b, i, P) ==
  LET ra == RemoveAt(a, i)
  IN  RouteDist(I, ra) + RouteDist(I, b) + BestInsert(I, b, a[i])
      + Pen(I, Load(I, a) - Q(I, a[i]), P) + Pen(I, Load(I, b) + Q(I, a[i]), P)

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y

BestResult(I, a, b, P) ==
  SetMin({SwapCost(I, a, b, i, j, P) : i \in 1..Len(a), j \in 1..Len(b)}
         \cup {MoveCost(I, a, b, i, P) : i \in 1..Len(a)}
         \cup {MoveCost(I, b, a, j, P) : j \in 1..Len(b)})
BestGain(I, a, b, P) == PairCost(I, a, b, P) - BestResult(I, a, b, P)

\* a, b |-> a1, b1 is an exchange or a relocation between the two routes
IsExchange(a, b, a1, b1) ==
  \/ \E i \in 1..Len(a), j \in 1..Len(b) :
       /\ Drop(a1, b[j]) = RemoveAt(a, i) /\ Count(a1, b[j]) = 1
       /\ Drop(b1, a[i]) = RemoveAt(b, j) /\ Count(b1, a[i]) = 1
  \/ \E i \in 1..Len(a) : a1 = RemoveAt(a, i) /\ Drop(b1, a[i]) = b /\ Count(b1, a[i]) = 1
  \/ \E j \in 1..Len(b) : b1 = RemoveAt(b, j) /\ Drop(a1, b[j]) = a /\ Count(a1, b[j]) = 1

(***************************************************************************)
(* How the code finds it: the three best insertion places of u into the    *)
(* unchanged route b, and the place v leaves.  A place is a position p     *)
(* ("after p") in b; places next to v are not available when v leaves.     *)
(***************************************************************************)
Places(I, r, x) == {[p |-> p, c |-> InsertCost(I, r, p, x)] : p \in 0..Len(r)}
RECURSIVE BestPlaces(_, _)
BestPlaces(S, k) ==
  IF k = 0 \/ S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S : x.c < y.c \/ (x.c = y.c /\ x.p <= y.p)
       IN  <<m>> \o BestPlaces(S \ {m}, k - 1)

\* cheapest insertion of x into r while r[j] leaves, from the three best places
InsertWhileLeaving(I, r, x, j) ==
  LET three == BestPlaces(Places(I, r, x), 3)
      i == IF j = 1 THEN 0 ELSE r[j - 1]
      k == IF j = Len(r) THEN 0 ELSE r[j + 1]
      inplace == D(I, i, x) + D(I, x, k) - D(I, i, k)
      usable == {t \in Range(three) : t.p # j /\ t.p # j - 1}
  IN  SetMin({inplace} \cup {t.c : t \in usable})

RemovalGain(I, r, i) ==
  LET h == IF i = 1 THEN 0 ELSE r[i - 1]
      k == IF i = Len(r) THEN 0 ELSE r[i + 1]
  IN  D(I, h, r[i]) + D(I, r[i], k) - D(I, h, k)

AlgSwap(I, a, b, i, j, P) ==
  0 - RemovalGain(I, a, i) - RemovalGain(I, b, j)
  + InsertWhileLeaving(I, b, a[i], j) + InsertWhileLeaving(I, a, b[j], i)
  + Pen(I, Load(I, a) - Q(I, a[i]) + Q(I, b[j]), P) - Pen(I, Load(I, a), P)
  + Pen(I, Load(I, b) - Q(I, b[j]) + Q(I, a[i]), P) - Pen(I, Load(I, b), P)
\* the filter the code applies before looking for insertion places
AlgFilter(I, a, b, i, j, P) ==
  0 - RemovalGain(I, a, i) - RemovalGain(I, b, j)
  + Pen(I, Load(I, a) - Q(I, a[i]) + Q(I, b[j]), P) - Pen(I, Load(I, a), P)
  + Pen(I, Load(I, b) - Q(I, b[j]) + Q(I, a[i]), P) - Pen(I, Load(I, b), P) <= 0
AlgMove(I, a, b, i, P) ==
  0 - RemovalGain(I, a, i) + BestPlaces(Places(I, b, a[i]), 1)[1].c
  + Pen(I, Load(I, a) - Q(I, a[i]), P) - Pen(I, Load(I, a), P)
  + Pen(I, Load(I, b) + Q(I, a[i]), P) - Pen(I, Load(I, b), P)
AlgBest(I, a, b, P) ==
  SetMin({0} \cup {AlgSwap(I, a, b, i, j, P) : <<i, j>> \in
            {x \in (1..Len(a)) \X (1..Len(b)) : AlgFilter(I, a, b, x[1], x[2], P)}}
         \cup {AlgMove(I, a, b, i, P) : i \in 1..Len(a)}
         \cup {AlgMove(I, b, a, j, P) : j \in 1..Len(b)})
AlgGain(I, a, b, P) == 0 - AlgBest(I, a, b, P)
=============================================================================
