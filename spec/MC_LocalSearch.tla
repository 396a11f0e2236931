--------------------------- MODULE MC_LocalSearch ---------------------------
(***************************************************************************)
(* The local search as the code performs it, from every solution of N      *)
(* customers on a few instances: passes over the customers in any order,   *)
(* the neighbours of each in any order, moves next to the neighbour before *)
(* moves behind its depot, moves into an empty route from the second pass  *)
(* on, SWAP* on the overlapping pairs of routes at the end of a pass.      *)
(* Routes and customers remember when they were changed and tested, and    *)
(* what did not change since is not tested again.  However the orders are  *)
(* chosen, the search ends, every change is an improvement, and nothing    *)
(* that has been skipped would still improve the result.                   *)
(***************************************************************************)
EXTENDS LocalSearch, FiniteSetsExt, TLC, Json, IOUtils, CSV

CONSTANTS N, ROUTES, ATS, DEMANDS, CAPS, PENS, GRAN, SETS

VARIABLES x,        \* the instance: where the customers are, demands, capacity, penalty, moves
          R, R0,    \* the solution, and the one the search began with
          ph,       \* "pass": between customers, "nb": at the neighbours of u, "empty", "pairs", "done"
          todo, u, vs, at,   \* customers and neighbours left, when u was tested before
          lt, lm, ls,        \* when customers were tested, routes were modified, and were tested by SWAP*
          mc, loop, imp,     \* moves so far, passes so far, an improvement in this pass
          i, j, ati
vars == <<x, R, R0, ph, todo, u, vs, at, lt, lm, ls, mc, loop, imp, i, j, ati>>

\* some places on the plane, their distances from each other along the grid, and their directions
Spot == << <<2, 0>>, <<2, 1>>, <<0, 2>>, <<-1, 2>>, <<-3, 0>>, <<1, -2>>, <<4, 0>> >>
Angle == <<0, 4836, 16384, 21221, 32768, 53990, 0>>
Man(p, q) == Abs(p[1] - q[1]) + Abs(p[2] - q[2])
Point(k) == IF k = 1 THEN <<0, 0>> ELSE Spot[x.at[k - 1]]
I == [n |-> N, N |-> ROUTES, cap |-> x.cap, q |-> <<0>> \o x.q,
      d |-> [a \in 1..(N + 1) |-> [b \in 1..(N + 1) |-> Man(Point(a), Point(b))]],
      ang |-> [a \in 1..(N + 1) |-> IF a = 1 THEN 0 ELSE Angle[x.at[a - 1]]]]
P == x.pen
\* the GRAN nearest customers, the one with the smaller number first
Nearer(a, b, c) == D(I, a, b) < D(I, a, c) \/ (D(I, a, b) = D(I, a, c) /\ b < c)
Near(a) == LET m == {b \in 1..N : b # a}
           IN  [k \in 1..(N - 1) |-> CHOOSE b \in m : Cardinality({c \in m : Nearer(a, c, b)}) = k - 1]
E == [nb |-> [a \in 1..N |-> SubSeq(Near(a), 1, Min2(GRAN, N - 1))], mv |-> SETS[x.mv].mv, ss |-> SETS[x.mv].ss, ang |-> I.ang]

Perms == {p \in [1..N -> 1..N] : \A a, b \in 1..N : a # b => p[a] # p[b]}
CutSets == {c \in [1..(ROUTES - 1) -> 0..N] : \A a \in 1..(ROUTES - 2) : c[a] <= c[a + 1]}
Cut(p, c) == [k \in 1..ROUTES |-> SubSeq(p, (IF k = 1 THEN 0 ELSE c[k - 1]) + 1, IF k = ROUTES THEN N ELSE c[k])]

Init == /\ x \in [at : ATS,
                  q : [1..N -> DEMANDS], cap : CAPS, pen : PENS, mv : DOMAIN SETS]
        /\ R \in {Cut(p, c) : p \in Perms, c \in CutSets} /\ R0 = R
        /\ ph = "pass" /\ todo = 1..N /\ u = 0 /\ vs = {} /\ at = -1
        /\ lt = [a \in 1..N |-> -1] /\ lm = [k \in 1..ROUTES |-> 0] /\ ls = [k \in 1..ROUTES |-> -1]
        /\ mc = 0 /\ loop = 0 /\ imp = FALSE /\ i = 0 /\ j = 0 /\ ati = -1

Pick(a) == /\ ph = "pass" /\ a \in todo
           /\ todo' = todo \ {a} /\ u' = a /\ vs' = Range(E.nb[a]) /\ at' = lt[a] /\ lt' = [lt EXCEPT ![a] = mc]
           /\ ph' = "nb"
           /\ UNCHANGED <<x, R, R0, lm, ls, mc, loop, imp, i, j, ati>>

Improves(m, v) == MoveDelta(I, m, R, u, v, P) < 0
Better(M, v) == {m \in M : Improves(m, v)}
Change(T) == /\ R' = T /\ mc' = mc + 1 /\ imp' = TRUE
             /\ lm' = [k \in 1..ROUTES |-> IF T[k] # R[k] THEN mc + 1 ELSE lm[k]]
Perform(m, v) == Change(MoveResult(m, R, u, v).R)

Visit(v) ==
  /\ ph = "nb" /\ v \in vs /\ vs' = vs \ {v}
  /\ LET test == loop = 0 \/ Max2(lm[RouteOf(R, u)], lm[RouteOf(R, v)]) > at
         near == Better(Range(E.mv), v)
         back == IF FirstOnRoute(R, v) THEN Better(Range(E.mv) \cap DepotMoves, 0 - RouteOf(R, v)) ELSE {}
     IN  IF test /\ near # {} THEN \E m \in near : Perform(m, v)
         ELSE IF test /\ back # {} THEN \E m \in back : Perform(m, 0 - RouteOf(R, v))
         ELSE UNCHANGED <<R, mc, imp, lm>>
  /\ UNCHANGED <<x, R0, ph, todo, u, at, lt, ls, loop, i, j, ati>>

Empties == {k \in 1..ROUTES : R[k] = <<>>}
IntoEmpty ==
  /\ ph = "nb" /\ vs = {} /\ ph' = "pass"
  /\ IF loop > 0 /\ Empties # {}
     THEN \E k \in Empties :
            LET b == Better(Range(E.mv) \cap EmptyMoves, 0 - k)
            IN  IF b # {} THEN \E m \in b : Perform(m, 0 - k) ELSE UNCHANGED <<R, mc, imp, lm>>
     ELSE UNCHANGED <<R, mc, imp, lm>>
  /\ UNCHANGED <<x, R0, todo, u, vs, at, lt, ls, loop, i, j, ati>>

\* the end of a pass without SWAP*: passes are not counted then
Again == IF imp THEN ph' = "pass" /\ todo' = 1..N /\ imp' = FALSE ELSE ph' = "done" /\ UNCHANGED <<todo, imp>>
PassEnd ==
  /\ ph = "pass" /\ todo = {}
  /\ IF E.ss THEN /\ ph' = "pairs" /\ i' = 0 /\ j' = ROUTES /\ UNCHANGED <<todo, imp>>
     ELSE Again /\ UNCHANGED <<i, j>>
  /\ UNCHANGED <<x, R, R0, u, vs, at, lt, lm, ls, mc, loop, ati>>

\* the results of the best exchange between routes a and b
Results(a, b) ==
  LET put(r, c) == {InsertAfter(r, p, <<c>>) : p \in 0..Len(r)}
      swaps == UNION {put(RemoveAt(R[a], k), R[b][h]) \X put(RemoveAt(R[b], h), R[a][k]) : k \in 1..Len(R[a]), h \in 1..Len(R[b])}
      moves == UNION {{RemoveAt(R[a], k)} \X put(R[b], R[a][k]) : k \in 1..Len(R[a])}
               \cup UNION {put(R[a], R[b][h]) \X {RemoveAt(R[b], h)} : h \in 1..Len(R[b])}
      best == BestResult(I, R[a], R[b], P)
  IN  {t \in swaps \cup moves : PairCost(I, t[1], t[2], P) = best}
Pair ==
  /\ ph = "pairs"
  /\ IF j < ROUTES
     THEN \* route i with the next one
          /\ j' = j + 1
          /\ LET k == j + 1
                 test == R[i] # <<>> /\ R[k] # <<>> /\ (loop = 0 \/ Max2(ls[i], ls[k]) > ati)
                         /\ <<i, k>> \in OverlappingPairs(E, R)
             IN  IF test /\ BestGain(I, R[i], R[k], P) > 0
                 THEN \E t \in Results(i, k) : Change([R EXCEPT ![i] = t[1], ![k] = t[2]])
                 ELSE UNCHANGED <<R, mc, imp, lm>>
          /\ UNCHANGED <<ph, todo, i, ati, ls, loop>>
     ELSE IF i < ROUTES
     THEN /\ i' = i + 1 /\ j' = i + 1 /\ ati' = ls[i + 1] /\ ls' = [ls EXCEPT ![i + 1] = mc]
          /\ UNCHANGED <<R, mc, imp, lm, ph, todo, loop>>
     ELSE /\ loop' = loop + 1 /\ Again /\ UNCHANGED <<R, mc, lm, ls, i, j, ati>>
  /\ UNCHANGED <<x, R0, u, vs, at, lt>>

Next == \/ \E a \in 1..N : Pick(a) \/ Visit(a)
        \/ IntoEmpty \/ PassEnd \/ Pair
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* only the inputs, for the real code
Inputs == Init /\ [][FALSE]_vars

PartitionKept == Partition(I, R)
Falls == [][R' # R => Cost(I, R', P) < Cost(I, R, P)]_vars
EndsWell == ph = "done" => /\ LocalOptimum(I, E, R, P, TRUE)
                           /\ Cost(I, R, P) <= Cost(I, R0, P)
                           /\ (E.ss /\ R # R0) => NoImprovingMoveIntoEmpty(I, E, R, P)
\* nothing that would be skipped in a pass could be applied
NothingSkipped ==
  (ph = "nb" /\ loop > 0) => \A v \in vs :
     (Max2(lm[RouteOf(R, u)], lm[RouteOf(R, v)]) <= at) => Better(Range(E.mv), v) = {}
Ends == <>(ph = "done")

Export == IF "OUT" \in DOMAIN IOEnv /\ R = R0 /\ ph = "pass" /\ todo = 1..N /\ loop = 0
          THEN CSVWrite("%1$s", <<ToJson([xy |-> [a \in 1..(N + 1) |-> Point(a)], d |-> I.d, q |-> I.q, cap |-> x.cap, N |-> ROUTES,
                                          P |-> P, R |-> R, mv |-> E.mv, ss |-> E.ss, gran |-> GRAN])>>, IOEnv.OUT) ELSE TRUE

FewPlaces == {<<1, 3, 5>>, <<2, 4, 6>>}
Sorted3 == {s \in [1..3 -> {1, 3, 4, 5, 6}] : \A a \in 1..2 : s[a] <= s[a + 1]}
Some4 == {<<1, 3, 5, 6>>, <<2, 2, 4, 6>>, <<1, 2, 3, 4>>, <<1, 7, 5, 5>>}
One4 == {<<1, 3, 5, 6>>}
AllSets == << [mv |-> <<"RelocateSingle", "RelocateDouble", "SwapOneWithOne", "SwapTwoWithOne", "SwapTwoWithTwo",
                        "TwoOptIntraReverse", "TwoOptInterReverse", "TwoOptInter">>, ss |-> TRUE] >>
QuickSets == AllSets \o << [mv |-> <<"TwoOptInter">>, ss |-> TRUE] >>
MoreSets == AllSets \o
           << [mv |-> <<"RelocateSingle", "TwoOptInter">>, ss |-> FALSE], [mv |-> <<>>, ss |-> TRUE],
              [mv |-> <<"RelocateDoubleReverse", "SwapOneWithOne", "TwoOptIntraReverse">>, ss |-> TRUE] >>
=============================================================================
