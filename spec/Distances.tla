----------------------------- MODULE Distances ------------------------------
(***************************************************************************)
(* Distances of an instance and the lists of nearest neighbours.           *)
(* Coordinates are given in halves, explicit distances in quarters.  An     *)
(* instance is wide if its distances are too long to be looked at in        *)
(* hundredths: then the distances that are not rounded are known in whole   *)
(* units only, and their order from the coordinates.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Sq(x) == x * x
\* four times the square of the Euclidean distance of nodes a and b
Sq4(I, a, b) == Sq(I.xy[a + 1][1] - I.xy[b + 1][1]) + Sq(I.xy[a + 1][2] - I.xy[b + 1][2])

\* x is a nearest integer to sqrt(s / 4):  x - 1/2 <= sqrt(s)/2 <= x + 1/2
NearestToHalfRoot(x, s) == /\ x >= 0 /\ x < 23000
                           /\ (x = 0 \/ Sq(2 * x - 1) <= s) /\ s <= Sq(2 * x + 1)
\* x is 100 * sqrt(s / 4) = 50 sqrt(s) rounded down, up to one for the arithmetic
FloorOfHundredfold(x, s) == /\ x >= 0 /\ x < 40000
                            /\ Sq(x) <= 2500 * s + 2 * x + 1 /\ 2500 * s <= Sq(x + 1) + 2 * x + 1
\* x is sqrt(s / 4) rounded down, up to one for the arithmetic
FloorOfHalfRoot(x, s) == /\ x >= 0 /\ x < 23000
                         /\ 4 * Sq(x) <= s + 8 * x + 4 /\ s <= 4 * Sq(x + 1) + 8 * x + 4
\* x is a nearest integer to g / 4
NearestToQuarter(x, g) == 4 * x - 2 <= g /\ g <= 4 * x + 2

\* x is the distance of the nodes a and b of instance I
IsDistance(I, a, b, x) ==
  IF a = b THEN x = 0
  ELSE IF I.explicit
       THEN IF I.rounded THEN NearestToQuarter(x, I.given[a + 1][b + 1]) ELSE x = I.given[a + 1][b + 1]
       ELSE IF I.rounded THEN NearestToHalfRoot(x, Sq4(I, a, b)) ELSE IF I.wide THEN FloorOfHalfRoot(x, Sq4(I, a, b)) ELSE FloorOfHundredfold(x, Sq4(I, a, b))

\* the distances from node i of the nodes of map, or what orders them the same way
Orders(I, map, i, row) == IF I.explicit \/ I.rounded THEN row
                          ELSE [j \in 1..Len(map) |-> Sq4(I, map[i + 1], map[j])]

\* nb is a list of nearest customers of node i, where row[j+1] orders node j < m
IsNeighbourList(nb, i, row, m) ==
  LET S == {nb[k] : k \in DOMAIN nb}
      far == IF Len(nb) = 0 THEN 0 ELSE row[nb[Len(nb)] + 1]
  IN  /\ S \subseteq (1..(m - 1)) \ {i}
      /\ Cardinality(S) = Len(nb)
      /\ \A k \in 1..(Len(nb) - 1) : row[nb[k] + 1] <= row[nb[k + 1] + 1]
      /\ Len(nb) > 0 => \A j \in ((1..(m - 1)) \ {i}) \ S : far <= row[j + 1]
      \* enough of them for the usual neighbourhood size
      /\ Len(nb) >= (IF m - 2 < 20 THEN m - 2 ELSE 20)
=============================================================================
