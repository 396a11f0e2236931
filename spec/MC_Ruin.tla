------------------------------- MODULE MC_Ruin ------------------------------
(***************************************************************************)
(* One step of ruin and recreate from every solution of N customers on     *)
(* ROUTES routes, with every random choice: the constructed outcomes are   *)
(* among those that the definitions allow.  The solutions, and the partial *)
(* ones after the ruin, are replayed on the real operators.                *)
(***************************************************************************)
EXTENDS RuinRecreate, Json, IOUtils, CSV

CONSTANTS N, ROUTES, PARAMS, PEN, CAP

I == [n |-> N, N |-> ROUTES, cap |-> CAP, q |-> SubSeq(<<0, 2, 3, 1, 4, 2>>, 1, N + 1),
      d |-> [i \in 1..(N + 1) |-> SubSeq(<< <<0, 4, 6, 9, 14, 10>>, <<4, 0, 5, 11, 3, 17>>, <<6, 5, 0, 7, 12, 8>>,
                                             <<9, 11, 7, 0, 16, 13>>, <<14, 3, 12, 16, 0, 15>>, <<10, 17, 8, 13, 15, 0>> >>[i], 1, N + 1)]]

Perms == {p \in [1..N -> 1..N] : \A a, b \in 1..N : a # b => p[a] # p[b]}
Ends(k) == {e \in [1..k -> 1..N] : e[k] = N /\ \A j \in 1..(k - 1) : e[j] < e[j + 1]}
Pieces(p, k, e) == [j \in 1..k |-> SubSeq(p, (IF j = 1 THEN 0 ELSE e[j - 1]) + 1, e[j])]
InOrder(R) == \A a \in 1..(Len(R) - 1) : R[a][1] < R[a + 1][1]
Full(R) == R \o [j \in 1..(ROUTES - Len(R)) |-> <<>>]
Solutions == UNION {{Full(R) : R \in {Pieces(p, j, e) : p \in Perms, e \in Ends(j)}} : j \in 1..ROUTES}
Canonical == {R \in Solutions : InOrder(NonEmpty(R))}

\* C: parameters, todo: neighbours of the seed customer still to look at, ks: routes to ruin
VARIABLES phase, C, R0, R, R1, todo, ks, removed, ruined, open
vars == <<phase, C, R0, R, R1, todo, ks, removed, ruined, open>>

Init == /\ phase = "start" /\ R0 \in Canonical /\ R = R0 /\ R1 = <<>> /\ todo = <<>> /\ ks = 0
        /\ removed = {} /\ ruined = {} /\ open = {}
        /\ \E p \in PARAMS : C = [cavg |-> p \div 100, lmax |-> p % 100]

\* the other customers by their distance from c
NearTo(c) == LET S == Customers(I) \ {c}
             IN CHOOSE o \in [1..(N - 1) -> S] : /\ \A a, b \in 1..(N - 1) : a < b => o[a] # o[b] /\ D(I, c, o[a]) <= D(I, c, o[b])
Near == TLCEval([c \in 1..N |-> NearTo(c)])

Pick == /\ phase = "start"
        /\ \E c \in Customers(I) : todo' = Near[c]
        /\ ks' \in 1..RouteBound(I, C, R0)
        /\ phase' = "ruin"
        /\ UNCHANGED <<C, R0, R, R1, removed, ruined, open>>

Ruin == /\ phase = "ruin" /\ todo # <<>> /\ Cardinality(ruined) < ks
        /\ LET x == todo[1]
               k == RouteOf(R0, x)
               r == R0[k]
           IN  IF k \in ruined
               THEN UNCHANGED <<R, removed, ruined>>
               ELSE \E lt \in StringLengths(I, C, R0, r) : \E S \in Removals(Len(r), PosIn(r, x), lt) :
                      /\ R' = [R EXCEPT ![k] = KeepOnly(r, (1..Len(r)) \ S)]
                      /\ removed' = removed \cup {r[p] : p \in S}
                      /\ ruined' = ruined \cup {k}
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<phase, C, R0, R1, ks, open>>

Ruined == /\ phase = "ruin" /\ (todo = <<>> \/ Cardinality(ruined) = ks)
          /\ phase' = "recreate" /\ R1' = R /\ open' = removed /\ todo' = <<>> /\ ks' = 0
          /\ UNCHANGED <<C, R0, R, removed, ruined>>

Recreate == /\ phase = "recreate" /\ open # {}
            /\ LET aff == ruined \cup {j \in 1..Len(R) : R[j] # R1[j]} IN
               \E c \in open : \E k \in 1..Len(R) : \E p \in 0..Len(R[k]) :
                 /\ CheapestPlace(I, PEN, R, aff, c, k, p)
                 /\ R' = [R EXCEPT ![k] = InsertAfter(R[k], p, <<c>>)]
                 /\ open' = open \ {c}
            /\ UNCHANGED <<phase, C, R0, R1, todo, ks, removed, ruined>>

Recreated == /\ phase = "recreate" /\ open = {} /\ phase' = "done"
             /\ UNCHANGED <<C, R0, R, R1, todo, ks, removed, ruined, open>>

Next == Pick \/ Ruin \/ Ruined \/ Recreate \/ Recreated
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every choice leads to an end
Ends_ == <>(phase = "done")
RuinAllowed == (phase = "recreate" /\ R = R1 /\ open = removed) => RuinChecks(I, C, R0, R1, removed, ruined) = {}
RecreateAllowed == phase = "done" => RecreateChecks(I, PEN, R1, R, removed, ruined) = {}
NothingLost == /\ Range(Flatten(R)) \cup (IF phase = "recreate" THEN open ELSE IF phase = "done" THEN {} ELSE removed) = Customers(I)
               /\ Len(R) = ROUTES
Kept == \A k \in 1..ROUTES : SelectSeq(R0[k], LAMBDA x : x \notin removed) = SelectSeq(R[k], LAMBDA x : x \notin removed) \/ phase = "done"
\* a customer is taken from each ruined route and from no other one
OnlyRuined == phase \in {"ruin", "recreate"} => \A k \in 1..ROUTES : (k \in ruined) <=> (Range(R0[k]) \cap removed # {})

Export == IF "OUT" \notin DOMAIN IOEnv THEN TRUE
          ELSE IF phase = "start" THEN CSVWrite("%1$s", <<ToJson([R |-> R0, cavg |-> C.cavg, lmax |-> C.lmax, P |-> PEN,
                                          q |-> I.q, d |-> I.d, cap |-> I.cap, N |-> I.N])>>, IOEnv.OUT)
          ELSE IF phase = "recreate" /\ open = removed /\ removed # {}
          THEN CSVWrite("%1$s", <<ToJson([R |-> R1, removed |-> removed, ruined |-> ruined, P |-> PEN,
                                          q |-> I.q, d |-> I.d, cap |-> I.cap, N |-> I.N])>>, IOEnv.OUT)
          ELSE TRUE
=============================================================================
