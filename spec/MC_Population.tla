---------------------------- MODULE MC_Population ---------------------------
(***************************************************************************)
(* The two subpopulations as the code keeps them: members in the order of  *)
(* their cost, for each member a sorted list of its distances to the       *)
(* others, and the fitness computed from both.  TLC inserts every sequence *)
(* of solutions of a small universe and compares what the code's steps     *)
(* lead to with the definitions in Population.                             *)
(***************************************************************************)
EXTENDS Population, FiniteSetsExt, Json, IOUtils, CSV

CONSTANTS SOLS, MIN, MORE, ELITES, CLOSEST, DEPTH

VARIABLES fe, inf,  \* the subpopulations, as in Population
          sol,      \* sol[k]: the solution of identity k - 1
          fresh     \* has the last solution been added to the feasible ones
vars == <<fe, inf, sol, fresh>>

I == [n |-> 4, N |-> 2, cap |-> 5, q |-> <<0, 1, 2, 2, 3>>,
      d |-> << <<0, 2, 3, 2, 4>>, <<2, 0, 2, 3, 5>>, <<3, 2, 0, 2, 3>>, <<2, 3, 2, 0, 3>>, <<4, 5, 3, 3, 0>> >>]
PEN == 2
C == [min |-> MIN, max |-> MIN + MORE, el |-> ELITES, cl |-> CLOSEST, n |-> I.n]
Nothing == [m |-> <<>>, c |-> <<>>, f |-> <<>>, x |-> <<>>, dk |-> <<>>, dd |-> <<>>]

NbOf(s) == [a \in 0..(Len(s) - 1) |-> Nbrs(I, SOLS[s[a + 1]])]

(***************************************************************************)
(* The steps of the code                                                   *)
(***************************************************************************)
\* a pair into a sorted list, before the first that is not closer
Sorted(list, p) == LET k == Cardinality({h \in 1..Len(list) : list[h][1] < p[1]}) IN InsertAfter(list, k, <<p>>)
\* to the list of member a
AddPair(s, a, p) ==
  IF \E k \in DOMAIN s.dk : s.dk[k] = a
  THEN LET k == CHOOSE h \in DOMAIN s.dk : s.dk[h] = a IN [s EXCEPT !.dd[k] = Sorted(s.dd[k], p)]
  ELSE [s EXCEPT !.dk = Append(s.dk, a), !.dd = Append(s.dd, <<p>>)]
RECURSIVE AddDistances(_, _, _, _)
\* of member a to the first k members
AddDistances(s, nb, a, k) ==
  IF k = 0 THEN s
  ELSE LET b == s.m[k]
           r == AddDistances(s, nb, a, k - 1)
           dist == BrokenPairsN(I, nb[b], nb[a])
       IN  IF a = b THEN r ELSE AddPair(AddPair(r, b, <<dist, a>>), a, <<dist, b>>)

Refit(s) ==
  LET n == Size(s)
      cl == [k \in 1..n |-> Closeness(C, s, s.m[k])]
      \* sorted by it, largest first, members with the same in their order
      rank == [k \in 1..n |-> Cardinality({j \in 1..n : cl[j] > cl[k] \/ (cl[j] = cl[k] /\ j < k)})]
  IN  [s EXCEPT !.f = IF n = 1 THEN <<0>>
                      ELSE [k \in 1..n |-> n * (k - 1) + (IF n <= ELITES THEN 0 ELSE (n - ELITES) * rank[k])]]

Remove(s, k) ==
  LET a == s.m[k]
      keep == SelectSeq([h \in 1..Len(s.dk) |-> h], LAMBDA h : s.dk[h] # a)
  IN  Refit([m |-> RemoveAt(s.m, k), c |-> RemoveAt(s.c, k), f |-> RemoveAt(s.f, k), x |-> RemoveAt(s.x, k),
             dk |-> [h \in 1..Len(keep) |-> s.dk[keep[h]]],
             dd |-> [h \in 1..Len(keep) |-> SelectSeq(s.dd[keep[h]], LAMBDA p : p[2] # a)]])

IsClone(s, k) == Len(PairsOf(s, s.m[k])) > 0 /\ PairsOf(s, s.m[k])[1][1] = 0
RECURSIVE Worst(_, _, _)
\* the scan over the members from the second on
Worst(s, k, w) ==
  IF k > Size(s) THEN w.at
  ELSE LET cl == IsClone(s, k)
           better == (cl /\ ~w.clone) \/ (cl = w.clone /\ s.f[k] >= w.f)
       IN  Worst(s, k + 1, IF better THEN [at |-> k, clone |-> cl, f |-> s.f[k]] ELSE w)
Select1(s) == Remove(s, Worst(s, 2, [at |-> 2, clone |-> FALSE, f |-> -1]))
RECURSIVE Survive(_)
Survive(s) == IF Size(s) > MIN THEN Survive(Select1(s)) ELSE s

\* insertion at place p
Insert(s, nb, a, cost, x, p) ==
  LET s1 == [s EXCEPT !.m = InsertAfter(s.m, p, <<a>>), !.c = InsertAfter(s.c, p, <<cost>>),
                      !.f = InsertAfter(s.f, p, <<0>>), !.x = InsertAfter(s.x, p, <<x>>)]
      s2 == AddDistances(s1, nb, a, Size(s1))
      s3 == IF Size(s2) > 1 /\ IsClone(s2, p + 1) THEN Remove(s2, p + 1) ELSE Refit(s2)
  IN  IF Size(s3) >= C.max THEN Survive(s3) ELSE s3
PlacesFor(s, cost) == {p \in 0..Size(s) : (p > 0 => s.c[p] <= cost) /\ (p < Size(s) => cost <= s.c[p + 1])}

Init == fe = Nothing /\ inf = Nothing /\ sol = <<>> /\ fresh = FALSE
Add(k) ==
  /\ Len(sol) < DEPTH
  /\ sol' = Append(sol, k)
  /\ LET cost == Cost(I, SOLS[k], PEN)
         x == CapacityOk(I, SOLS[k])
         nb == NbOf(sol')
     IN  /\ fresh' = x
         /\ IF x THEN \E p \in PlacesFor(fe, cost) : fe' = Insert(fe, nb, Len(sol), cost, x, p) /\ UNCHANGED inf
            ELSE \E p \in PlacesFor(inf, cost) : inf' = Insert(inf, nb, Len(sol), cost, x, p) /\ UNCHANGED fe
Next == \E k \in DOMAIN SOLS : Add(k)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What they lead to                                                       *)
(***************************************************************************)
Ok == SubPopOk(C, fe, NbOf(sol), TRUE) \cup SubPopOk(C, inf, NbOf(sol), FALSE) = {}
InsertsAndSelects == [][LET a == Len(sol)
                            nb == NbOf(sol')
                            cost == Cost(I, SOLS[sol'[a + 1]], PEN)
                        IN  IF fresh' THEN InsertCheck(C, fe, fe', a, cost, nb) ELSE InsertCheck(C, inf, inf', a, cost, nb)]_vars
\* the best ever added is still there
KeepsTheBest ==
  LET costs(x) == {Cost(I, SOLS[sol[k]], PEN) : k \in {h \in 1..Len(sol) : CapacityOk(I, SOLS[sol[h]]) = x}}
  IN  /\ costs(TRUE) # {} => Size(fe) > 0 /\ fe.c[1] = Min(costs(TRUE))
      /\ costs(FALSE) # {} => Size(inf) > 0 /\ inf.c[1] = Min(costs(FALSE))
\* two members are never the same solution, or one with routes driven the other way round
NoCopies == \A s \in {fe, inf} : \A a, b \in 1..Size(s) : a # b =>
  ~ \E S \in SUBSET {1, 2} : RouteSet(ReversedSome(SOLS[sol[s.m[a] + 1]], S)) = RouteSet(SOLS[sol[s.m[b] + 1]])

Export == IF "OUT" \in DOMAIN IOEnv /\ Len(sol) = DEPTH
          THEN CSVWrite("%1$s", <<ToJson([d |-> I.d, q |-> I.q, cap |-> I.cap, N |-> 2, P |-> PEN, min |-> MIN, lambda |-> MORE,
                 el |-> ELITES, cl |-> CLOSEST, add |-> [k \in 1..DEPTH |-> SOLS[sol[k]]]])>>, IOEnv.OUT) ELSE TRUE

Universe == << << <<1, 2>>, <<3, 4>> >>,  << <<2, 1>>, <<4, 3>> >>, << <<1, 3>>, <<4, 2>> >>, << <<1, 4>>, <<2, 3>> >>,
               << <<>>, <<1, 2, 3, 4>> >>, << <<4, 3, 2, 1>>, <<>> >> >>
Wider == Universe \o << << <<4, 1>>, <<3, 2>> >>, << <<2, 4>>, <<1, 3>> >>, << <<1, 3, 2>>, <<4>> >>, << <<3, 1, 2>>, <<4>> >>,
               << <<3>>, <<2, 1, 4>> >> >>
=============================================================================
