----------------------------- MODULE LocalSearch ----------------------------
(***************************************************************************)
(* Local search as a state machine on solutions: as long as an enabled     *)
(* move of a customer relative to a neighbour (or to the depot before a    *)
(* neighbour that is visited first), a move into an empty route, or a      *)
(* SWAP* exchange of two overlapping routes improves the penalized cost,   *)
(* one of them is applied.                                                 *)
(*                                                                         *)
(* The setting E of a search is a record                                   *)
(*   nb   nb[u] = the sequence of neighbours of customer u                 *)
(*   mv   the enabled moves, a sequence of names                           *)
(*   ss   whether SWAP* is enabled                                         *)
(*   ang  angles, ang[i+1] for node i                                      *)
(***************************************************************************)
EXTENDS Moves, SwapStar

Sec == INSTANCE Sector WITH M <- 65536
SectorOfRoute(E, r) == Sec!SectorOf([k \in 1..Len(r) |-> E.ang[r[k] + 1]])

FirstOnRoute(R, v) == R[RouteOf(R, v)][1] = v

\* the places customer u is tried at, and with which moves
Trials(E, R, u) ==
  {<<m, v>> \in Range(E.mv) \X Range(E.nb[u]) : TRUE}
  \cup {<<m, 0 - RouteOf(R, v)>> : <<m, v>> \in
          {x \in (Range(E.mv) \cap DepotMoves) \X Range(E.nb[u]) : FirstOnRoute(R, x[2])}}

ImprovingMoves(I, E, R, P) ==
  {<<u, t[1], t[2]>> : <<u, t>> \in
      {x \in UNION {{u} \X Trials(E, R, u) : u \in Customers(I)} :
         MoveDelta(I, x[2][1], R, x[1], x[2][2], P) < 0}}

NoImprovingMove(I, E, R, P) ==
  \A u \in Customers(I) : \A t \in Trials(E, R, u) : MoveDelta(I, t[1], R, u, t[2], P) >= 0

\* no enabled move into an empty route improves
NoImprovingMoveIntoEmpty(I, E, R, P) ==
  \A k \in {x \in 1..Len(R) : R[x] = <<>>} : \A u \in Customers(I) : \A m \in Range(E.mv) \cap EmptyMoves :
     MoveDelta(I, m, R, u, 0 - k, P) >= 0

OverlappingPairs(E, R) ==
  {<<i, j>> \in (1..Len(R)) \X (1..Len(R)) :
     /\ i < j /\ Len(R[i]) > 0 /\ Len(R[j]) > 0
     /\ Sec!Overlap(SectorOfRoute(E, R[i]), SectorOfRoute(E, R[j]))}

NoImprovingExchange(I, E, R, P) ==
  \A p \in OverlappingPairs(E, R) : BestGain(I, R[p[1]], R[p[2]], P) <= 0

\* When the search may stop.  (Exchanges are only exhausted on metric distances.)
LocalOptimum(I, E, R, P, metric) ==
  /\ NoImprovingMove(I, E, R, P)
  /\ (E.ss /\ metric) => NoImprovingExchange(I, E, R, P)
=============================================================================
