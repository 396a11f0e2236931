------------------------------ MODULE MC_Tour -------------------------------
(***************************************************************************)
(* Arranging the routes of a solution: two routes in the wrong order       *)
(* change places, until none are.  One to MAXR routes are taken from       *)
(* ROUTES, of customers on a grid around the depot.  The solutions to      *)
(* begin with are replayed.                                                *)
(***************************************************************************)
EXTENDS Tour, Json, IOUtils, CSV

CONSTANTS MAXR

\* the depot, and customers in all directions, one of them at the depot
XY == << <<5, 3>>, <<6, 3>>, <<7, 4>>, <<4, 5>>, <<4, 3>>, <<3, 2>>, <<5, 2>>, <<5, 3>>, <<9, 2>> >>
N == Len(XY) - 1
Routes == {<<>>} \cup {<<a>> : a \in 1..N} \cup {<<a, b>> : a, b \in 1..N} 
Disjoint(R) == \A j, k \in 1..Len(R) : j # k => Range(R[j]) \cap Range(R[k]) = {}
NoRepeats(r) == Len(r) < 2 \/ r[1] < r[2]
Some == {r \in Routes : NoRepeats(r)}

VARIABLES first, R
vars == <<first, R>>
Init == /\ first \in {S \in UNION {[1..k -> Some] : k \in 1..MAXR} : Disjoint(S)}
        /\ R = first

\* j before k, but in the wrong order
Wrong(S, j, k) == /\ j < k
                  /\ \/ Len(S[j]) = 0 /\ Len(S[k]) > 0
                     \/ Len(S[j]) > 0 /\ Len(S[k]) > 0 /\ Before(Centre(XY, S[k]), Centre(XY, S[j]))
Swapped(S, j, k) == [S EXCEPT ![j] = S[k], ![k] = S[j]]
Exchange(j, k) == Wrong(R, j, k) /\ R' = Swapped(R, j, k) /\ UNCHANGED first
Next == \E j, k \in 1..Len(R) : Exchange(j, k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the routes stay the same ones
Same == \A k \in 1..Len(R) : Count(R, R[k]) = Count(first, R[k])
\* what is left without a wrong pair is arranged, and only that
Done == (\A j, k \in 1..Len(R) : ~Wrong(R, j, k)) <=> TourCheck(XY, R, Flatten(R)) = {}
\* the order of angles is one: nothing is before itself, and (where none is open) no circles
Ordering == \A j \in 1..Len(R) : ~Before(Centre(XY, R[j]), Centre(XY, R[j]))
Asymmetric == \A j, k \in 1..Len(R) : Before(Centre(XY, R[j]), Centre(XY, R[k])) => ~Before(Centre(XY, R[k]), Centre(XY, R[j]))
Transitive == \A i, j, k \in 1..Len(R) :
  Before(Centre(XY, R[i]), Centre(XY, R[j])) /\ Before(Centre(XY, R[j]), Centre(XY, R[k])) => Before(Centre(XY, R[i]), Centre(XY, R[k]))
\* it comes to an end
Ends == <>[](\A j, k \in 1..Len(R) : ~Wrong(R, j, k))

Export == IF "OUT" \in DOMAIN IOEnv /\ R = first
          THEN CSVWrite("%1$s", <<ToJson([xy |-> XY, R |-> R])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
