---------------------------- MODULE MC_SwapStar -----------------------------
(***************************************************************************)
(* The way SWAP* looks for the best exchange (the three best places of     *)
(* each customer in the other route, and a filter before they are looked   *)
(* up) finds the best one: on every metric instance with the given         *)
(* distances, all of which are between some D and 2 D, so that they are    *)
(* metric whatever they are, for two routes of A and B customers.          *)
(***************************************************************************)
EXTENDS SwapStar, Json, IOUtils, CSV

CONSTANTS A, B, DIST, DEMAND, CAPS, PEN,
          CHECK,    \* every so many are compared
          EVERY     \* every so many are replayed

VARIABLES row,      \* rows of the distance matrix so far
          q, cap
vars == <<row, q, cap>>

N == A + B
ra == [k \in 1..A |-> k]
rb == [k \in 1..B |-> A + k]
Done == Len(row) = N
I == [n |-> N, N |-> 2, cap |-> cap, q |-> <<0>> \o q,
      d |-> [i \in 1..(N + 1) |-> [j \in 1..(N + 1) |-> IF i = j THEN 0 ELSE IF i > j THEN row[i - 1][j] ELSE row[j - 1][i]]]]

Init == row = <<>> /\ q \in [1..N -> DEMAND] /\ cap \in CAPS
\* a vehicle can go round a route in both directions: one of them is enough
Next == /\ Len(row) < N
        /\ \E r \in [1..(Len(row) + 1) -> DIST] : row' = Append(row, r)
        /\ UNCHANGED <<q, cap>>
Spec == Init /\ [][Next]_vars


RECURSIVE Mix(_, _)
Mix(s, k) == IF k = 0 THEN 17 ELSE (Mix(s, k - 1) * 31 + s[k]) % 100003
RECURSIVE Key(_)
Key(k) == IF k = 0 THEN Mix(q, N) ELSE (Key(k - 1) * 7 + Mix(row[k], k)) % 100003
FindsTheBest == (Done /\ Key(N) % CHECK = 0) => AlgGain(I, ra, rb, PEN) = Max2(0, BestGain(I, ra, rb, PEN))

Export == IF "OUT" \in DOMAIN IOEnv /\ Done /\ Key(N) % EVERY = 0
          THEN CSVWrite("%1$s", <<ToJson([d |-> I.d, q |-> I.q, cap |-> cap, N |-> 2, P |-> PEN, R |-> <<ra, rb>>])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
