----------------------------- MODULE MC_History -----------------------------
(***************************************************************************)
(* The records of a run: every sequence of DEPTH solutions that are found  *)
(* (KINDS: by the education of an individual, or added from outside), with *)
(* restarts in between.  Among the solutions are infeasible ones, and      *)
(* different ones of equal cost.  The sequences are replayed.              *)
(***************************************************************************)
EXTENDS Genetic, FiniteSetsExt, Json, IOUtils, CSV

CONSTANTS DEPTH, KINDS

I == [n |-> 3, N |-> 3, cap |-> 5, q |-> <<0, 2, 2, 3>>,
      d |-> <<<<0, 2, 3, 4>>, <<2, 0, 2, 6>>, <<3, 2, 0, 3>>, <<4, 6, 3, 0>>>>]
Solutions == << << <<1, 2>>, <<3>>, <<>> >>,      \* 15
                << <<3>>, <<>>, <<2, 1>> >>,      \* 15
                << <<2, 3>>, <<1>>, <<>> >>,      \* 14
                << <<1>>, <<2>>, <<3>> >>,        \* 18
                << <<1, 2, 3>>, <<>>, <<>> >>,    \* 11, too much load
                << <<>>, <<3, 1, 2>>, <<>> >> >>  \* 15, too much load

VARIABLES s, ops, all, life
vars == <<s, ops, all, life>>

Init == s = NoRecords /\ ops = <<>> /\ all = {} /\ life = {}
Found == /\ Len(ops) < DEPTH
         /\ \E k \in DOMAIN Solutions, kind \in KINDS :
              LET R == Solutions[k]
                  new == IF Feasible(I, R) THEN {Distance(I, R)} ELSE {}
              IN  /\ s' = Offer(I, s, R) /\ ops' = Append(ops, [o |-> kind, R |-> R])
                  /\ all' = all \cup new /\ life' = life \cup new
Restart == /\ Len(ops) < DEPTH
           /\ s' = Restarting(s) /\ ops' = Append(ops, [o |-> "restart", R |-> <<>>])
           /\ life' = {} /\ UNCHANGED all
Next == Found \/ Restart
Spec == Init /\ [][Next]_vars

\* the last record is the best of all that was found, whatever came in between
NeverMissed == /\ BestRecorded(s) = IF all = {} THEN Infinite ELSE Min(all)
               /\ all # {} => Feasible(I, s.hl) /\ Distance(I, s.hl) = Min(all)
Improve == \A k \in 1..(Len(s.hc) - 1) : s.hc[k + 1] < s.hc[k]
OfThisLife == s.lb = IF life = {} THEN Infinite ELSE Min(life)
Stay == [][Len(s'.hc) >= Len(s.hc) /\ SubSeq(s'.hc, 1, Len(s.hc)) = s.hc]_vars
\* a new record exactly when the solution is the best so far
OnlyBest == [][Len(s'.hc) > Len(s.hc) <=> (all' # all /\ Min(all') = Min(all' \ all)) /\ (all # {} => Min(all') < Min(all))]_vars

Export == IF "OUT" \in DOMAIN IOEnv /\ Len(ops) = DEPTH
          THEN CSVWrite("%1$s", <<ToJson([ops |-> ops, q |-> I.q, d |-> I.d, cap |-> I.cap, N |-> I.N])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
