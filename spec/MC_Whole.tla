------------------------------- MODULE MC_Whole ------------------------------
(***************************************************************************)
(* The whole program: it reads an instance, sets the size of the fleet,    *)
(* finds one solution after another, records those that are feasible and   *)
(* cheaper than the recorded one, and in the end writes the last recorded  *)
(* one into the solution file.                                             *)
(*                                                                         *)
(* All instances with up to MAXN customers at points from a few places     *)
(* (the depot among them) with demands from 0 to the capacity; they are    *)
(* replayed as complete runs of the program.                               *)
(***************************************************************************)
EXTENDS Output, Json, IOUtils, CSV

CONSTANTS MAXN, CAP, PLACES

\* the depot is at the first place; the distances are whole numbers
Place == << <<0, 0>>, <<3, 4>>, <<0, 4>>, <<3, 0>> >>
Dist == << <<0, 5, 4, 3>>, <<5, 0, 3, 4>>, <<4, 3, 0, 5>>, <<3, 4, 5, 0>> >>

\* a customer: 1000 * place + demand; the customers of an instance in this order
Kinds == {1000 * p + q : p \in 1..PLACES, q \in 0..CAP}
Instances == UNION {{c \in [1..n -> Kinds] : \A k \in 1..(n - 1) : c[k] <= c[k + 1]} : n \in 1..MAXN}
At(c, k) == IF k = 0 THEN 1 ELSE c[k] \div 1000
Make(c) ==
  LET n == Len(c)
      J == [n |-> n, N |-> 0, cap |-> CAP,
            q |-> [k \in 1..(n + 1) |-> IF k = 1 THEN 0 ELSE c[k - 1] % 1000],
            d |-> [a \in 1..(n + 1) |-> [b \in 1..(n + 1) |-> Dist[At(c, a - 1)][At(c, b - 1)]]],
            xy |-> [k \in 1..(n + 1) |-> Place[At(c, k - 1)]]]
  IN  [J EXCEPT !.N = FleetSize(J)]

\* the partitions of 1..n into at most k ordered routes
RECURSIVE PartitionsOf(_, _)
PartitionsOf(n, k) ==
  IF n = 0 THEN {<<>>}
  ELSE LET P == PartitionsOf(n - 1, k)
       IN UNION {UNION {{[R EXCEPT ![j] = InsertAfter(R[j], p, <<n>>)] : p \in 0..Len(R[j])} : j \in 1..Len(R)} : R \in P}
          \cup {Append(R, <<n>>) : R \in {X \in P : Len(X) < k}}
Table == TLCEval([n \in 1..MAXN |-> PartitionsOf(n, n)])

VARIABLES inst, phase, best, file
vars == <<inst, phase, best, file>>

Init == /\ \E c \in Instances : inst = Make(c)
        /\ phase = "search" /\ best = <<>> /\ file = << <<"old">> >>
Offers == {R \in Table[inst.n] : Len(R) <= inst.N}
Find == /\ phase = "search"
        /\ \E R \in Offers :
             /\ CapacityOk(inst, R)
             /\ best # <<>> => Distance(inst, R) < Distance(inst, best)
             /\ best' = R
        /\ UNCHANGED <<inst, phase, file>>
Finish == /\ phase = "search" /\ phase' = "done"
          /\ file' = IF best = <<>> THEN <<>>
                     ELSE LET s == SolutionLines(best) IN [s EXCEPT ![Len(s)] = @ \o <<ToString(Distance(inst, best))>>]
          /\ UNCHANGED <<inst, best>>
Next == Find \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ends == <>(phase = "done")
Recorded == best # <<>> => Feasible(inst, best) /\ Len(best) <= inst.N
Delivered == phase = "done" =>
  IF best = <<>> THEN file = <<>>
  ELSE IsText(file, <<0, Distance(inst, best)>>, best, <<0, 1000 * Distance(inst, best)>>)
\* the fleet is large enough for a feasible solution, the one with the fewest routes included
Solvable == phase = "search" => /\ inst.N >= 2 /\ \E R \in Offers : CapacityOk(inst, R)
EachAlone == \A k \in 1..inst.n : RouteDist(inst, <<k>>) = 2 * D(inst, 0, k)
MetricData == Metric(inst)
\* only improvements
Improves == [][best' # best => (best = <<>> \/ Distance(inst, best') < Distance(inst, best))]_vars
Keeps == [][phase = "done" => UNCHANGED vars]_vars

Export == IF "OUT" \in DOMAIN IOEnv /\ phase = "search" /\ best = <<>>
          THEN CSVWrite("%1$s", <<ToJson([q |-> inst.q, xy |-> inst.xy, cap |-> CAP, N |-> inst.N])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
