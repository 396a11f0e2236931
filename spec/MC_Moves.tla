------------------------------ MODULE MC_Moves ------------------------------
(***************************************************************************)
(* From every solution of n customers on N routes, every move at every     *)
(* pair of a customer and a place: the pointer surgery gives the routes    *)
(* that Moves defines, the links stay consistent, and the predicted change *)
(* is the real one.  Distances and demands are such that different sums of *)
(* them are different, so that a formula with a wrong term cannot be right *)
(* by chance.                                                              *)
(***************************************************************************)
EXTENDS LinkedRoutes, Json, IOUtils, CSV

CONSTANTS N, ROUTES, CAPS, PEN, STEPS

VARIABLES R, s, cap, hist, R0
vars == <<R, s, cap, hist, R0>>

RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
PairNo(i, j) == LET a == Min2(i, j)
                    b == Max2(i, j) IN (b * (b - 1)) \div 2 + a
Inst(c) == [n |-> N, N |-> ROUTES, cap |-> c,
            d |-> [i \in 1..(N + 1) |-> [j \in 1..(N + 1) |-> IF i = j THEN 0 ELSE Pow(5, PairNo(i - 1, j - 1) % 12) + 3 * PairNo(i - 1, j - 1)]],
            q |-> [i \in 1..(N + 1) |-> IF i = 1 THEN 0 ELSE Pow(2, i - 2)]]
I == Inst(cap)

Perms == {p \in [1..N -> 1..N] : \A a, b \in 1..N : a # b => p[a] # p[b]}
\* places to cut a sequence of N into ROUTES pieces
CutSets == {c \in [1..(ROUTES - 1) -> 0..N] : \A a \in 1..(ROUTES - 2) : c[a] <= c[a + 1]}
Cut(p, c) == [k \in 1..ROUTES |-> SubSeq(p, (IF k = 1 THEN 0 ELSE c[k - 1]) + 1, IF k = ROUTES THEN N ELSE c[k])]
Solutions == {Cut(p, c) : p \in Perms, c \in CutSets}

Init == /\ R \in Solutions /\ cap \in CAPS /\ s = Load0(Inst(cap), R) /\ hist = <<>> /\ R0 = R

Places(k) == Range(R[k]) \cup {StartOf(k)}
Apply(m, u, v) ==
  LET k1 == RouteOf(R, u)
      k2 == RouteIdx(R, v)
      w == MoveResult(m, R, u, v)
  IN  /\ w.ok /\ Len(hist) < STEPS
      /\ R' = w.R
      /\ s' = Perform(m, s, u, v, k1, k2)
      /\ hist' = Append(hist, <<m, u, v>>)
      /\ UNCHANGED <<cap, R0>>
Next == \E m \in MoveNames : \E u \in Customers(I) : \E v \in UNION {Places(k) : k \in 1..ROUTES} :
          u # v /\ Apply(m, u, v)
Spec == Init /\ [][Next]_vars

Refines == \A k \in 1..ROUTES : /\ Read(I, s, k) = WithDepots(R, k)
                                 /\ ReadBack(I, s, k) = WithDepots(R, k)
PartitionKept == Partition(I, R)
\* exhaustively in one state: every predicted change is the real one, and zero if the move is not applicable
PredictedIsReal == Len(hist) < STEPS =>
  \A m \in MoveNames : \A u \in Customers(I) : \A v \in UNION {Places(k) : k \in 1..ROUTES} :
    (u # v /\ (v < 0 => m \in DepotMoves)) =>
      Predicted(I, m, s, R, u, v, RouteOf(R, u), RouteIdx(R, v), PEN) = MoveDelta(I, m, R, u, v, PEN)

\* a behaviour for the real code: an instance, the routes it starts from, and the moves
Export == IF "OUT" \in DOMAIN IOEnv /\ Len(hist) = STEPS
          THEN CSVWrite("%1$s", <<ToJson([d |-> I.d, q |-> I.q, cap |-> cap, N |-> ROUTES, P |-> PEN,
                                          R |-> R0, ops |-> hist])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
