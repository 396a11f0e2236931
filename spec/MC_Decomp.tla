------------------------------ MODULE MC_Decomp -----------------------------
(***************************************************************************)
(* ROUNDS times, any routes of a solution of N customers on ROUTES routes  *)
(* are taken out, and any solution of the subproblem that leaves enough    *)
(* vehicles is put back.  The solutions and results are replayed.          *)
(***************************************************************************)
EXTENDS Decomposition, Json, IOUtils, CSV

CONSTANTS N, ROUTES, ROUNDS

I == [n |-> N, N |-> ROUTES, cap |-> 5, q |-> SubSeq(<<0, 2, 3, 1, 4, 2>>, 1, N + 1),
      d |-> [i \in 1..(N + 1) |-> SubSeq(<< <<0, 2, 3, 4, 7, 5>>, <<2, 0, 2, 6, 1, 9>>, <<3, 2, 0, 3, 5, 4>>,
                                             <<4, 6, 3, 0, 8, 2>>, <<7, 1, 5, 8, 0, 6>>, <<5, 9, 4, 2, 6, 0>> >>[i], 1, N + 1)]]

\* the solutions of 1..n with at most k non-empty routes, one of each that differ in the order of the routes only
Perms(n) == {p \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => p[a] # p[b]}
Ends(n, k) == {e \in [1..k -> 1..n] : e[k] = n /\ \A j \in 1..(k - 1) : e[j] < e[j + 1]}
Pieces(p, k, e) == [j \in 1..k |-> SubSeq(p, (IF j = 1 THEN 0 ELSE e[j - 1]) + 1, e[j])]
InOrder(R) == \A a \in 1..(Len(R) - 1) : R[a][1] < R[a + 1][1]
SolutionsOf(n, k) == UNION {{R \in {Pieces(p, j, e) : p \in Perms(n), e \in Ends(n, j)} : InOrder(R)} : j \in 1..Min2(k, n)}
Table == TLCEval([n \in 1..N |-> [k \in 1..ROUTES |-> SolutionsOf(n, k)]])

\* R on ROUTES routes
Full(R) == R \o [j \in 1..(ROUTES - Len(R)) |-> <<>>]

VARIABLES R0, R, last, hist
vars == <<R0, R, last, hist>>

Init == /\ R0 \in {Full(x) : x \in Table[N][ROUTES]} /\ R = R0 /\ last = <<>> /\ hist = <<>>

RECURSIVE Pick(_, _, _)
Pick(s, T, k) == IF k > Len(s) THEN <<>> ELSE (IF k \in T THEN <<s[k]>> ELSE <<>>) \o Pick(s, T, k + 1)

\* the routes with numbers in T are taken, customers are numbered along them
Take(T) ==
  LET taken == Pick(R, T, 1)
      left == Pick(R, DOMAIN R \ T, 1)
      m == <<0>> \o Flatten(taken)
      len == [j \in 1..Len(taken) |-> Len(taken[j])]
      sub == [j \in 1..Len(taken) |-> [k \in 1..len[j] |-> (IF j = 1 THEN 0 ELSE SumTo(len, j - 1)) + k]]
  IN  [m |-> m, left |-> left, sub |-> sub]

Next ==
  /\ Len(hist) < ROUNDS
  /\ \E T \in SUBSET (DOMAIN R) :
       /\ \E k \in T : Len(R[k]) > 0
       /\ LET t == Take(T)
              sn == Len(t.m) - 1
              rest == NonEmpty(t.left)
          IN \E S \in Table[sn][ROUTES - Len(rest)] :
               /\ R' = Full(rest \o MapRoutes(t.m, S))
               /\ last' = [t |-> t, S |-> S, R |-> R]
               /\ hist' = Append(hist, [size |-> sn, taken |-> Tail(t.m), S |-> S])
  /\ UNCHANGED R0
Spec == Init /\ [][Next]_vars

Sub == SubProblem(I, last.t.m)
Whole == Partition(I, R) /\ Len(R) = I.N
Mapped == last # <<>> => /\ IsMapping(I, last.t.m)
                         /\ TakenOut(last.R, MapRoutes(last.t.m, last.t.sub), last.t.left)
                         /\ Partition(Sub, last.t.sub)
Back == last # <<>> => PutBack(I, last.t.m, last.S, last.t.left, R)
\* costs and loads add up, whatever the penalty
Adds == last # <<>> => \A P \in {0, 1, 4} :
  /\ Cost(I, R, P) = Cost(I, last.t.left, P) + Cost(Sub, last.S, P)
  /\ Cost(I, last.R, P) = Cost(I, last.t.left, P) + Cost(Sub, last.t.sub, P)
\* a result that may replace the subproblem's solution gives one that may replace the whole one
Quality == last # <<>> => (NotWorse(Sub, last.t.sub, last.S) => NotWorse(I, last.R, R))
\* and putting back what was taken changes nothing but the order
Same == (last # <<>> /\ last.S = last.t.sub) => SameRoutes(R, last.R)

Export == IF "OUT" \in DOMAIN IOEnv /\ Len(hist) = ROUNDS
          THEN CSVWrite("%1$s", <<ToJson([R |-> R0, ops |-> hist, q |-> I.q, d |-> I.d, cap |-> I.cap, N |-> ROUTES])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
