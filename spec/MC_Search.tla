------------------------------ MODULE MC_Search -----------------------------
(***************************************************************************)
(* The search of ruin and recreate with any candidates: which are accepted,*)
(* which is kept as the best, which are recorded.  The sequences of        *)
(* candidates are replayed on the real search with operators that propose  *)
(* exactly these.                                                          *)
(***************************************************************************)
EXTENDS RuinRecreate, Json, IOUtils, CSV

CONSTANTS LEN, ZERO, UP, EVERY, USED

I == [n |-> 4, N |-> 3, cap |-> 5, q |-> <<0, 2, 3, 1, 4>>,
      d |-> << <<0, 2, 3, 4, 7>>, <<2, 0, 2, 6, 1>>, <<3, 2, 0, 3, 5>>, <<4, 6, 3, 0, 8>>, <<7, 1, 5, 8, 0>> >>]
\* from the cheapest to the most expensive one, two that cost the same, feasible and not
Cands == << << <<1, 2>>, <<3, 4>>, <<>> >>,      \* feasible
            << <<2, 1>>, <<4, 3>>, <<>> >>,      \* the same cost
            << <<1, 4>>, <<2>>, <<3>> >>,        \* overload 1, short
            << <<1, 2, 3, 4>>, <<>>, <<>> >>,    \* overload 5
            << <<4>>, <<3, 1>>, <<2>> >>,        \* feasible, longer
            << <<1, 3>>, <<2, 4>>, <<>> >> >>    \* overload 2
C == [zero |-> ZERO, up |-> UP]
P0 == 4

VARIABLES s, hist, seen, rec
\* seen: [R, P] accepted so far, the loaded one first; rec: costs of the recorded ones
vars == <<s, hist, seen, rec>>

Start(k) == [cur |-> Cands[k], cand |-> <<>>, open |-> FALSE, best |-> {Cands[k]}, steps |-> 0, P |-> P0]
Init == \E k \in USED : /\ s = Start(k) /\ hist = <<k>> /\ seen = <<Cands[k]>>
                        /\ rec = <<>>

\* a candidate becomes the best when it is cheaper than the best so far
Step(k) ==
  LET p == Propose(I, C, s, Cands[k], EVERY)
  IN  /\ Len(hist) <= LEN
      /\ hist' = Append(hist, k)
      /\ \E R \in {p.cur, p.cand} :
           /\ (R = p.cur \/ R = p.cand) /\ Settle(I, C, p, R).ok
           /\ LET st == Settle(I, C, p, R).st
                  yes == R = p.cand /\ TRUE \in MayAccept(I, p.P, p.cur, p.cand, C.zero)
                  better == yes /\ \A b \in p.best : Cost(I, R, p.P) < Cost(I, b, p.P)
              IN  /\ s' = st
                  /\ seen' = IF yes THEN Append(seen, R) ELSE seen
                  /\ rec' = IF better /\ CapacityOk(I, R) /\ (rec = <<>> \/ Distance(I, R) < rec[Len(rec)])
                            THEN Append(rec, Distance(I, R)) ELSE rec
Next == \E k \in USED : Step(k)
Spec == Init /\ [][Next]_vars

SeenSet == {seen[k] : k \in 1..Len(seen)}
\* with a constant penalty the best is the cheapest one ever accepted, the loaded one included
BestIsCheapest == ~UP => \A b \in s.best : b \in SeenSet /\ \A x \in SeenSet : Cost(I, b, s.P) <= Cost(I, x, s.P)
BestIsSeen == s.best # {} /\ s.best \subseteq SeenSet
\* at temperature zero the costs of the accepted ones never rise, and the current one is the best
Descends == (ZERO /\ ~UP) => /\ \A k \in 1..(Len(seen) - 1) : Cost(I, seen[k + 1], P0) < Cost(I, seen[k], P0)
                             /\ s.cur \in s.best
Follows == s.cur = seen[Len(seen)] \/ \E k \in 1..Len(seen) : s.cur = seen[k]
NeverOpen == ~s.open
Recorded == \A k \in 1..(Len(rec) - 1) : rec[k + 1] < rec[k]
\* a feasible best one that was accepted is recorded (the loaded one is not its business)
NotMissed == ~UP => \A b \in s.best : (CapacityOk(I, b) /\ Cost(I, b, P0) < Cost(I, seen[1], P0))
                                        => rec # <<>> /\ rec[Len(rec)] <= Distance(I, b)
PenaltyMoves == s.P \in {1, 2, 4, 8, 16}

Export == IF "OUT" \in DOMAIN IOEnv /\ Len(hist) = LEN + 1
          THEN CSVWrite("%1$s", <<ToJson([R |-> [k \in 1..Len(hist) |-> Cands[hist[k]]], zero |-> ZERO, up |-> UP, P |-> P0,
                                          q |-> I.q, d |-> I.d, cap |-> I.cap, N |-> I.N])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
