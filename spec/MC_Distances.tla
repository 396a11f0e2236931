---------------------------- MODULE MC_Distances ----------------------------
(***************************************************************************)
(* Every placement of N + 1 nodes on the points of a small grid (in halves,*)
(* so that the middle between two integers occurs), and every subproblem:  *)
(* a sequence of some of the customers, the depot in front.  Distances     *)
(* exist, are unique but in the middle, and do not depend on the direction;*)
(* a list of nearest neighbours of the whole, restricted to a subproblem,  *)
(* is one of the subproblem.  Both are built by the real code.             *)
(***************************************************************************)
EXTENDS Distances, TLC, Json, IOUtils, CSV

CONSTANTS N, POINTS, ROUNDED

VARIABLES xy, map
vars == <<xy, map>>

Grid == {<<0, 0>>, <<1, 0>>, <<3, 0>>, <<1, 2>>, <<4, 3>>, <<0 - 2, 1>>}
Points == {p \in Grid : (POINTS = 4 => p \in {<<0, 0>>, <<1, 0>>, <<3, 0>>, <<1, 2>>})}
Injective(s) == \A a, b \in DOMAIN s : a # b => s[a] # s[b]
Maps == UNION {{s \in [1..k -> 1..N] : Injective(s)} : k \in 1..N}

Init == xy \in [1..(N + 1) -> Points] /\ map = <<>>
Next == map = <<>> /\ \E s \in Maps : map' = <<0>> \o s /\ UNCHANGED xy
Spec == Init /\ [][Next]_vars

I == [n |-> N, xy |-> xy, rounded |-> ROUNDED, explicit |-> FALSE, wide |-> FALSE, given |-> <<>>]
Values(a, b) == {x \in 0..(IF ROUNDED THEN 6 ELSE 300) : IsDistance(I, a, b, x)}
Exist == map = <<>> => \A a, b \in 0..N :
  /\ Values(a, b) # {} /\ Values(a, b) = Values(b, a)
  /\ Cardinality(Values(a, b)) \in IF ROUNDED THEN {1, 2} ELSE 1..3
  /\ (ROUNDED /\ Cardinality(Values(a, b)) = 2) => Sq4(I, a, b) % 2 = 1
\* a distance the code may have: the larger one in the middle
Pick(S) == CHOOSE x \in S : \A y \in S : x >= y
\* one list of nearest neighbours: by distance, and by number
Vals(i) == TLCEval([j \in 0..N |-> Pick(Values(i, j))])
List(i, v) == LET S == (1..N) \ {i}
                  before(a, b) == v[a] < v[b] \/ (v[a] = v[b] /\ a < b)
              IN  [k \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : before(y, x)}) = k - 1]
Row(v, m) == [j \in 1..Len(m) |-> v[m[j]]]
Whole == [j \in 1..(N + 1) |-> j - 1]
Index(x) == CHOOSE k \in DOMAIN map : map[k] = x
Restricted == map # <<>> => \A k \in DOMAIN map :
  LET i == map[k]
      v == Vals(i)
      nbrs == List(i, v)
      kept == SelectSeq(nbrs, LAMBDA x : \E j \in DOMAIN map : map[j] = x)
      nb == [j \in DOMAIN kept |-> Index(kept[j]) - 1]
  IN  /\ IsNeighbourList(nbrs, i, Row(v, Whole), N + 1)
      /\ IsNeighbourList(nb, k - 1, Row(v, map), Len(map))

Export == IF "OUT" \in DOMAIN IOEnv /\ map # <<>>
          THEN CSVWrite("%1$s", <<ToJson([xy |-> xy, map |-> map, rounded |-> ROUNDED])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
