------------------------------- MODULE MC_Eval ------------------------------
(***************************************************************************)
(* Solutions and what is derived from them: every solution of N customers  *)
(* with up to K routes (empty ones included), one evaluated after another  *)
(* on the same object, at penalties from PENS.  The pairs are replayed.    *)
(***************************************************************************)
EXTENDS Adjacency, Json, IOUtils, CSV

CONSTANTS N, K, PENS, EXPORT

I == [n |-> N, N |-> K, cap |-> 5, q |-> SubSeq(<<0, 2, 3, 0, 4>>, 1, N + 1),
      d |-> [i \in 1..(N + 1) |-> SubSeq(<< <<0, 2, 3, 4, 7>>, <<2, 0, 2, 6, 1>>, <<3, 2, 0, 3, 5>>,
                                             <<4, 6, 3, 0, 8>>, <<7, 1, 5, 8, 0>> >>[i], 1, N + 1)]]

Perms == {p \in [1..N -> 1..N] : \A a, b \in 1..N : a # b => p[a] # p[b]}
\* where the routes end
Ends(k) == {e \in [1..k -> 0..N] : e[k] = N /\ \A j \in 1..(k - 1) : e[j] <= e[j + 1]}
Pieces(p, k, e) == [j \in 1..k |-> SubSeq(p, (IF j = 1 THEN 0 ELSE e[j - 1]) + 1, e[j])]
Solutions == UNION {{Pieces(p, k, e) : p \in Perms, e \in Ends(k)} : k \in 1..K}

VARIABLES before, now    \* [R, P] of the last two evaluations
vars == <<before, now>>
Init == /\ before \in [R : Solutions, P : PENS] /\ now = before
Next == /\ now = before /\ now' \in [R : Solutions, P : PENS] /\ UNCHANGED before
Spec == Init /\ [][Next]_vars

All == {<<a, b>> : a \in 1..N, b \in {0, 1}}
CostOfParts == Cost(I, now.R, now.P) = Distance(I, now.R) + now.P * SumSeq([j \in 1..Len(now.R) |-> Excess(I, now.R[j])])
FeasibleMeansFree == CapacityOk(I, now.R) <=> Cost(I, now.R, 7) = Distance(I, now.R)
Whole == Partition(I, now.R)
Inverse == \A x, y \in 1..N : (Succ(now.R, x) = y) <=> (Pred(now.R, y) = x)
\* a route and its reverse are at distance zero, and cost the same
Reversals == \A S \in SUBSET (1..Len(now.R)) :
  /\ BrokenPairs(I, now.R, ReversedSome(now.R, S)) = 0 /\ BrokenPairs(I, ReversedSome(now.R, S), now.R) = 0
  /\ Cost(I, ReversedSome(now.R, S), now.P) = Cost(I, now.R, now.P)
\* adjacency decides: the distance is the one of the neighbourhoods, between 0 and 2 n
BrokenBounds == BrokenPairs(I, before.R, now.R) \in 0..(2 * N)
SameEdges(A, B) == \A x \in 1..N : {Succ(A, x), Pred(A, x)} = {Succ(B, x), Pred(B, x)}
ZeroForSame == SameEdges(before.R, now.R) => BrokenPairs(I, before.R, now.R) = 0
\* zero both ways only if every customer keeps its neighbours, but for routes of one customer
ZeroMeans == (BrokenPairs(I, before.R, now.R) = 0 /\ BrokenPairs(I, now.R, before.R) = 0) => SameEdges(before.R, now.R)

Export == IF "OUT" \in DOMAIN IOEnv /\ (EXPORT = "pairs" => now # before)
          THEN CSVWrite("%1$s", <<ToJson([A |-> before, B |-> now, q |-> I.q, d |-> I.d, cap |-> I.cap, N |-> K])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
