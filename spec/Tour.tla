-------------------------------- MODULE Tour --------------------------------
(***************************************************************************)
(* The arrangement of the routes of a solution: by the polar angle, around *)
(* the depot, of the centre of their customers, from -180 to 180 degrees.  *)
(* Empty routes come last, and the giant tour visits the routes one after  *)
(* the other.  xy[i + 1] are the integer coordinates of node i.            *)
(***************************************************************************)
EXTENDS CVRP

\* the centre of a route seen from the depot, times the number of its customers
Centre(xy, r) == <<SumSeq([k \in 1..Len(r) |-> xy[r[k] + 1][1] - xy[1][1]]),
                   SumSeq([k \in 1..Len(r) |-> xy[r[k] + 1][2] - xy[1][2]])>>

\* directions left open: none at all, and the one where the circle begins and ends
Open(p) == p[2] = 0 /\ p[1] <= 0
\* the angles below zero, zero itself, and those above
Part(p) == IF p[2] < 0 THEN 0 ELSE IF p[2] = 0 THEN 1 ELSE 2
Cross(p, r) == p[1] * r[2] - p[2] * r[1]
Before(p, r) == ~Open(p) /\ ~Open(r) /\ (Part(p) < Part(r) \/ (Part(p) = Part(r) /\ Cross(p, r) > 0))

EmptyLast(R) == \A j, k \in 1..Len(R) : j < k /\ Len(R[j]) = 0 => Len(R[k]) = 0
\* (the centres computed once)
Arranged(xy, R) ==
  LET c == TLCEval([k \in 1..Len(R) |-> Centre(xy, R[k])])
  IN  \A j, k \in 1..Len(R) : j < k /\ Len(R[j]) > 0 /\ Len(R[k]) > 0 => ~Before(c[k], c[j])

TourCheck(xy, R, G) == Failing(<<
  <<"empty-routes-last", EmptyLast(R)>>,
  <<"routes-by-angle", Arranged(xy, R)>>,
  <<"giant-tour", G = Flatten(R)>> >>)
=============================================================================
