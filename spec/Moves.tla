------------------------------- MODULE Moves --------------------------------
(***************************************************************************)
(* The nine local-search moves at the level of routes as sequences.        *)
(* A move is applied to a customer u and a place v: a customer, or the     *)
(* depot a route starts from, written -k for route k (1-based).            *)
(***************************************************************************)
EXTENDS CVRP

MoveNames == {"RelocateSingle", "RelocateDouble", "RelocateDoubleReverse",
              "SwapOneWithOne", "SwapTwoWithOne", "SwapTwoWithTwo",
              "TwoOptIntraReverse", "TwoOptInterReverse", "TwoOptInter"}

\* The moves that are also tried relative to the start of the neighbour's route
DepotMoves == {"RelocateSingle", "RelocateDouble", "RelocateDoubleReverse",
               "TwoOptInterReverse", "TwoOptInter"}
\* The moves that are also tried into an empty route
EmptyMoves == {"RelocateSingle", "RelocateDouble", "RelocateDoubleReverse", "TwoOptInter"}

RouteIdx(R, v) == IF v < 0 THEN 0 - v ELSE RouteOf(R, v)
Position(R, v) == IF v < 0 THEN 0 ELSE PosIn(R[RouteOf(R, v)], v)

\* Applicable and resulting routes, given the routes a, b of u and v and the
\* positions i, j in them.  `same' tells whether a and b are the same route.
\* The result is <<ok, new a, new b>>; for the same route the second counts.
\* A swap is not applied to pieces that overlap or touch each other.
None == [ok |-> FALSE, a |-> <<>>, b |-> <<>>]
Some2(a, b) == [ok |-> TRUE, a |-> a, b |-> b]

\* put piece p (taken from position i, length w of route r) after position j of r
MoveWithin(r, i, w, j, p) ==
  LET rest == SubSeq(r, 1, i - 1) \o SubSeq(r, i + w, Len(r))
      j1   == IF j >= i + w THEN j - w ELSE j
  IN  InsertAfter(rest, j1, p)

Relocate(same, a, b, i, j, w, p) ==
  IF same
  THEN IF j >= i - 1 /\ j < i + w      \* stays in place, or relative to itself
       THEN None
       ELSE LET r == MoveWithin(a, i, w, j, p) IN Some2(r, r)
  ELSE Some2(SubSeq(a, 1, i - 1) \o SubSeq(a, i + w, Len(a)), InsertAfter(b, j, p))

\* exchange piece [i, i+w-1] of a with piece [j, j+z-1] of b
Exchange(same, a, b, i, w, j, z) ==
  LET pa == SubSeq(a, i, i + w - 1)
      pb == SubSeq(b, j, j + z - 1)
  IN IF same
     THEN IF i + w < j
          THEN LET r == SubSeq(a, 1, i - 1) \o pb \o SubSeq(a, i + w, j - 1) \o pa \o SubSeq(a, j + z, Len(a))
               IN  Some2(r, r)
          ELSE IF j + z < i
          THEN LET r == SubSeq(a, 1, j - 1) \o pa \o SubSeq(a, j + z, i - 1) \o pb \o SubSeq(a, i + w, Len(a))
               IN  Some2(r, r)
          ELSE None
     ELSE Some2(SubSeq(a, 1, i - 1) \o pb \o SubSeq(a, i + w, Len(a)),
                SubSeq(b, 1, j - 1) \o pa \o SubSeq(b, j + z, Len(b)))

Effect(m, same, a, b, i, j) ==
  CASE m = "RelocateSingle" -> Relocate(same, a, b, i, j, 1, <<a[i]>>)
    [] m = "RelocateDouble" ->
         IF i + 1 > Len(a) THEN None ELSE Relocate(same, a, b, i, j, 2, <<a[i], a[i + 1]>>)
    [] m = "RelocateDoubleReverse" ->
         IF i + 1 > Len(a) THEN None ELSE Relocate(same, a, b, i, j, 2, <<a[i + 1], a[i]>>)
    [] m = "SwapOneWithOne" -> IF j = 0 THEN None ELSE Exchange(same, a, b, i, 1, j, 1)
    [] m = "SwapTwoWithOne" ->
         IF j = 0 \/ i + 1 > Len(a) THEN None ELSE Exchange(same, a, b, i, 2, j, 1)
    [] m = "SwapTwoWithTwo" ->
         IF j = 0 \/ i + 1 > Len(a) \/ j + 1 > Len(b) THEN None ELSE Exchange(same, a, b, i, 2, j, 2)
    [] m = "TwoOptIntraReverse" ->
         IF ~same \/ j <= i + 1 THEN None
         ELSE LET r == SubSeq(a, 1, i) \o Reverse(SubSeq(a, i + 1, j)) \o SubSeq(a, j + 1, Len(a))
              IN  Some2(r, r)
    [] m = "TwoOptInterReverse" ->
         IF same THEN None
         ELSE Some2(Prefix(a, i) \o Reverse(Prefix(b, j)),
                    Reverse(Suffix(a, i + 1)) \o Suffix(b, j + 1))
    [] m = "TwoOptInter" ->
         IF same THEN None
         ELSE Some2(Prefix(a, i) \o Suffix(b, j + 1), Prefix(b, j) \o Suffix(a, i + 1))

\* The same on a whole solution: [ok, R]
MoveResult(m, R, u, v) ==
  LET ka == RouteOf(R, u)
      kb == RouteIdx(R, v)
      e  == Effect(m, ka = kb, R[ka], R[kb], PosIn(R[ka], u), Position(R, v))
  IN  [ok |-> e.ok,
       R  |-> IF ~e.ok THEN R
              ELSE [k \in 1..Len(R) |-> IF k = ka THEN e.a ELSE IF k = kb THEN e.b ELSE R[k]]]

\* The change of the penalized cost, only looking at the touched routes
MoveDelta(I, m, R, u, v, P) ==
  LET ka == RouteOf(R, u)
      kb == RouteIdx(R, v)
      e  == Effect(m, ka = kb, R[ka], R[kb], PosIn(R[ka], u), Position(R, v))
  IN  IF ~e.ok THEN 0
      ELSE IF ka = kb THEN RouteCost(I, e.a, P) - RouteCost(I, R[ka], P)
      ELSE RouteCost(I, e.a, P) + RouteCost(I, e.b, P)
           - RouteCost(I, R[ka], P) - RouteCost(I, R[kb], P)
=============================================================================
