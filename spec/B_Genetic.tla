------------------------------ MODULE B_Genetic -----------------------------
(***************************************************************************)
(* States of the genetic phase the real algorithm is put in, to see what   *)
(* it does next: how many of the last hundred individuals were feasible    *)
(* (and whether the one that leaves the window next was), whether the      *)
(* penalty is due, where it is in its range, and how long ago the last     *)
(* improvement was.                                                        *)
(***************************************************************************)
EXTENDS Genetic, Json, IOUtils, CSV

CONSTANT TARGETS

VARIABLE x
vars == <<x>>

Shares == [ones : 0..100, oldest : {0, 1}, target : TARGETS, due : {0}, interval : {4}, pen : {3}, since : {0}, noimp : {1000}]
Ranges == [ones : {0, 50, 100}, oldest : {0}, target : {50}, due : {0 - 1, 0, 1}, interval : {1, 3}, pen : 1..5, since : {0}, noimp : {1000}]
Restarts == [ones : {0, 100}, oldest : {1}, target : {50}, due : {0 - 1, 0, 1}, interval : {2}, pen : {3}, since : 0..5, noimp : 0..4]

Init == x \in {y \in Shares \cup Ranges \cup Restarts : (y.ones = 0 => y.oldest = 0) /\ (y.ones = 100 => y.oldest = 1)
                                                         /\ y.since <= y.noimp}
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_vars

\* the window: the ones at its end, but for the oldest place
Window(y) == [k \in 1..100 |-> IF k = 1 THEN y.oldest ELSE IF k > 100 - (y.ones - y.oldest) THEN 1 ELSE 0]
Counts == CountOnes(Window(x)) = x.ones
\* exactly one direction, but at the ends of the tolerance
Decided == LET c == [target |-> x.target]
               d == Directions(c, Window(x))
           IN  d # {} /\ (Cardinality(d) = 2 => Abs(x.ones - x.target) = 5)
Export == IF "OUT" \in DOMAIN IOEnv THEN CSVWrite("%1$s", <<ToJson([y |-> x, w |-> Window(x)])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
