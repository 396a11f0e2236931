------------------------------ MODULE MC_Split ------------------------------
(***************************************************************************)
(* The linear split as the code performs it: labels are computed from left *)
(* to right with a queue of predecessors that are not dominated, first     *)
(* without a limit on the number of routes, then, if that takes too many,  *)
(* once more with one layer of labels per route.  TLC runs it on every     *)
(* sequence of n customers with the given distances, demands and           *)
(* penalties, and compares what it finds with the definition of the        *)
(* cheapest split and with the enumeration of all of them.                 *)
(***************************************************************************)
EXTENDS Split, FiniteSetsExt, TLC, Json, IOUtils, CSV

CONSTANTS N, CHAIN, DEPOT, DEMAND, CAPS, PENALTIES, LIMITS

VARIABLES dn,    \* dn[i]: distance from customer i to the next one
          dd,    \* dd[i]: distance to the depot
          q, cap, pen, lim,
          phase, k, i, queue, path, pred
inp == <<dn, dd, q, cap, pen, lim>>
vars == <<inp, phase, k, i, queue, path, pred>>

\* the instance: only consecutive distances and those to the depot matter for consecutive pieces
I == [n |-> N, cap |-> cap, N |-> N,
      d |-> [x \in 1..(N + 1) |-> [y \in 1..(N + 1) |->
               IF x = y THEN 0
               ELSE IF x = 1 THEN dd[y - 1] ELSE IF y = 1 THEN dd[x - 1]
               ELSE IF y = x + 1 THEN dn[x - 1] ELSE IF x = y + 1 THEN dn[y - 1] ELSE 0]],
      q |-> <<0>> \o q]
Tour == [x \in 1..N |-> x]
K == RouteLimit(I, lim)

Cum(j) == IF j <= 1 THEN 0 ELSE SumTo(dn, j - 1)
LoadOf(j) == SumTo(q, j)

Propagate(l, p, j) == path[l][p] + Cum(j) - Cum(p + 1) + dd[p + 1] + dd[j] + pen * Max2(0, LoadOf(j) - LoadOf(p) - cap)
\* p is better than j as a predecessor of everything to come, whatever is added
Dominates(l, p, j) ==
  path'[l][j] + dd[j + 1] > path'[l][p] + dd[p + 1] + Cum(j + 1) - Cum(p + 1) + pen * (LoadOf(j) - LoadOf(p))
DominatesRight(l, p, j) == path'[l][j] + dd[j + 1] <= path'[l][p] + dd[p + 1] + Cum(j + 1) - Cum(p + 1)

RECURSIVE PopBack(_, _, _)
PopBack(l, qu, j) == IF qu # <<>> /\ DominatesRight(l, qu[Len(qu)], j) THEN PopBack(l, SubSeq(qu, 1, Len(qu) - 1), j) ELSE qu
RECURSIVE PopFront(_, _, _)
PropagateNew(l, p, j) == path'[l][p] + Cum(j) - Cum(p + 1) + dd[p + 1] + dd[j] + pen * Max2(0, LoadOf(j) - LoadOf(p) - cap)
PopFront(l, qu, j) == IF Len(qu) > 1 /\ PropagateNew(l, qu[1], j) >= PropagateNew(l, qu[2], j) THEN PopFront(l, Tail(qu), j) ELSE qu

Init == /\ dn \in [1..(N - 1) -> CHAIN] /\ dd \in [1..N -> DEPOT] /\ q \in [1..N -> DEMAND]
        /\ cap \in CAPS /\ pen \in PENALTIES /\ lim \in LIMITS
        /\ \A x \in 1..N : q[x] <= cap
        /\ phase = "free" /\ k = 0 /\ i = 1 /\ queue = <<0>>
        /\ path = [l \in 0..N |-> [j \in 0..N |-> IF l = 0 /\ j = 0 THEN 0 ELSE Inf]]
        /\ pred = [l \in 0..N |-> [j \in 0..N |-> 0]]

\* label customer j in layer to, from layer from
Label(from, to, j) ==
  /\ path' = [path EXCEPT ![to][j] = Propagate(from, queue[1], j)]
  /\ pred' = [pred EXCEPT ![to][j] = queue[1]]
  /\ queue' = IF j = N THEN queue
              ELSE LET q1 == IF Dominates(from, queue[Len(queue)], j) THEN queue
                             ELSE PopBack(from, queue, j) \o <<j>>
                   IN  PopFront(from, q1, j + 1)

RECURSIVE RoutesFree(_)
RoutesFree(j) == IF j = 0 THEN 0 ELSE 1 + RoutesFree(pred[0][j])

Free == /\ phase = "free" /\ i <= N
        /\ Label(0, 0, i) /\ i' = i + 1 /\ UNCHANGED <<inp, phase, k>>
FreeEnd == /\ phase = "free" /\ i > N
           /\ IF RoutesFree(N) <= K THEN phase' = "done" /\ UNCHANGED <<k, i, queue, path, pred>>
              ELSE /\ phase' = "limited" /\ k' = 0 /\ i' = 1 /\ queue' = <<0>>
                   /\ path' = [l \in 0..N |-> [j \in 0..N |-> IF l = 0 /\ j = 0 THEN 0 ELSE Inf]]
                   /\ UNCHANGED pred
           /\ UNCHANGED inp
Layer == /\ phase = "limited" /\ k < K
         /\ IF i > N \/ queue = <<>> THEN k' = k + 1 /\ i' = k + 2 /\ queue' = <<k + 1>> /\ UNCHANGED <<path, pred>>
            ELSE Label(k, k + 1, i) /\ i' = i + 1 /\ UNCHANGED k
         /\ UNCHANGED <<inp, phase>>
LayerEnd == phase = "limited" /\ k >= K /\ phase' = "done2" /\ UNCHANGED <<inp, k, i, queue, path, pred>>
Next == Free \/ FreeEnd \/ Layer \/ LayerEnd
Spec == Init /\ [][Next]_vars

RECURSIVE RoutesAt(_, _)
RoutesAt(l, j) == IF j = 0 THEN <<>> ELSE RoutesAt(IF l = 0 THEN 0 ELSE l - 1, pred[l][j]) \o <<Piece(Tour, pred[l][j], j)>>
Layers == 1..K
BestLayer == CHOOSE l \in Layers : path[l][N] = Min({path[m][N] : m \in Layers})
Found == IF phase = "done" THEN RoutesAt(0, N) ELSE RoutesAt(BestLayer, N)

Cheapest == phase \in {"done", "done2"} =>
  /\ Cost(I, Found, pen) = BestSplit(I, Tour, K, pen, -1)
  /\ Cost(I, Found, pen) = (IF phase = "done" THEN path[0][N] ELSE path[BestLayer][N])
  /\ IsSplitOf(Found, Tour) /\ Flatten(Found) = Tour /\ Len(Found) <= K
Enumeration == phase \in {"done", "done2"} => BestSplit(I, Tour, K, pen, -1) = BestSplitByEnumeration(I, Tour, K, pen, -1)
\* a label is the cheapest way to reach its customer
Labels == phase = "free" => \A j \in 1..(i - 1) : path[0][j] = BestSplit([I EXCEPT !.n = j], SubSeq(Tour, 1, j), j, pen, -1)
QueueOrdered == \A x \in 1..(Len(queue) - 1) : queue[x] < queue[x + 1]
\* used layers have exactly their number of routes
Unreached == phase = "done2" => \A l \in 1..K : \A j \in 0..(l - 1) : j > 0 => path[l][j] = Inf

\* every input, for the real code
Export == IF "OUT" \in DOMAIN IOEnv /\ phase = "free" /\ i = 1
          THEN CSVWrite("%1$s", <<ToJson([d |-> I.d, q |-> I.q, cap |-> cap, pen |-> pen, lim |-> lim])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
