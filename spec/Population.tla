----------------------------- MODULE Population -----------------------------
(***************************************************************************)
(* A subpopulation as a sequence of members ordered by cost.               *)
(*                                                                         *)
(* s.m   identities                s.c   penalized costs                   *)
(* s.f   biased fitness, times N (N - 1) for N > 1 members                 *)
(* s.x   feasibility                                                       *)
(* s.dk, s.dd  the distances kept: dd[k] are the <<distance, other>> pairs *)
(*       of member dk[k], closest first                                    *)
(* The setting C has min and max sizes, el(ites) and cl(osest).            *)
(***************************************************************************)
EXTENDS Adjacency

Size(s) == Len(s.m)
Members(s) == Range(s.m)
PairsOf(s, a) == IF \E k \in DOMAIN s.dk : s.dk[k] = a THEN s.dd[CHOOSE k \in DOMAIN s.dk : s.dk[k] = a] ELSE <<>>

RECURSIVE SumDist(_, _)
SumDist(p, k) == IF k = 0 THEN 0 ELSE p[k][1] + SumDist(p, k - 1)
\* sum of the distances to the closest others
Closeness(C, s, a) == SumDist(PairsOf(s, a), Min2(Min2(C.cl, Size(s) - 1), Len(PairsOf(s, a))))

(***************************************************************************)
(* Order, class, identities, size                                          *)
(***************************************************************************)
WellOrdered(C, s, feasible) == Failing(<<
  <<"ordered-by-cost", \A k \in 1..(Size(s) - 1) : s.c[k] <= s.c[k + 1]>>,
  <<"feasibility-class", \A k \in 1..Size(s) : s.x[k] = feasible>>,
  <<"unique-identities", Cardinality(Members(s)) = Size(s)>>,
  <<"size", Size(s) < C.max>> >>)

(***************************************************************************)
(* Distances kept.  nb[a] are the neighbours of the customers in solution  *)
(* a.  The distance is directed: that of either direction may be kept, but *)
(* the same for both members.                                              *)
(***************************************************************************)
DistancesOk(C, s, nb) == Failing(<<
  <<"distances-of-the-members-only",
     /\ Range(s.dk) \subseteq Members(s)
     /\ \A k \in DOMAIN s.dk : \A j \in DOMAIN s.dd[k] : s.dd[k][j][2] \in Members(s)>>,
  <<"every-pair-once", \A a \in Members(s) :
     /\ Len(PairsOf(s, a)) = Size(s) - 1
     /\ {p[2] : p \in Range(PairsOf(s, a))} = Members(s) \ {a}>>,
  <<"closest-first", \A k \in DOMAIN s.dd : \A j \in 1..(Len(s.dd[k]) - 1) : s.dd[k][j][1] <= s.dd[k][j + 1][1]>>,
  <<"distance", \A k \in DOMAIN s.dk : \A p \in Range(s.dd[k]) :
     p[1] \in {BrokenPairsN(C, nb[s.dk[k]], nb[p[2]]), BrokenPairsN(C, nb[p[2]], nb[s.dk[k]])}>>,
  <<"same-for-both", \A k \in DOMAIN s.dk : \A p \in Range(s.dd[k]) :
     \E p2 \in Range(PairsOf(s, p[2])) : p2[2] = s.dk[k] /\ p2[1] = p[1]>> >>)

(***************************************************************************)
(* Biased fitness: rank of the cost plus the weighted rank of the average  *)
(* distance to the closest members, largest first.  The place of members   *)
(* with the same average is open.                                          *)
(***************************************************************************)
FitnessOk(C, s) ==
  LET N == Size(s)
      w == N - C.el
      \* rank in diversity times w
      dr == [k \in 1..N |-> s.f[k] - N * (k - 1)]
      cl == TLCEval([k \in 1..N |-> Closeness(C, s, s.m[k])])
  IN IF N = 0 THEN TRUE
     ELSE IF N = 1 THEN s.f[1] = 0
     ELSE IF w <= 0 THEN \A k \in 1..N : s.f[k] = N * (k - 1)
     ELSE /\ {dr[k] : k \in 1..N} = {w * r : r \in 0..(N - 1)}
          /\ \A j, k \in 1..N : cl[j] > cl[k] => dr[j] < dr[k]

SubPopOk(C, s, nb, feasible) ==
  WellOrdered(C, s, feasible) \cup DistancesOk(C, s, nb)
  \cup Failing(<< <<"biased-fitness", FitnessOk(C, s)>> >>)

(***************************************************************************)
(* Removing one member: one at distance zero to another if there is one,   *)
(* the least fit of those, and never the first.                            *)
(***************************************************************************)
HasClone(s, a) == \E p \in Range(PairsOf(s, a)) : p[1] = 0
Removable(s) ==
  LET clones == {k \in 2..Size(s) : HasClone(s, s.m[k])}
      from == IF clones # {} THEN clones ELSE 2..Size(s)
  IN  {k \in from : \A j \in from : s.f[j] <= s.f[k]}

(***************************************************************************)
(* Inserting a member and selecting survivors, on sequences of identities  *)
(* ordered by cost, where the distances are a function dist[<<a, b>>].     *)
(***************************************************************************)
ClosestSum(C, seq, a, dist) ==
  LET others == {seq[k] : k \in 1..Len(seq)} \ {a}
      take == Min2(C.cl, Cardinality(others))
      RECURSIVE Sum(_, _)
      Sum(S, k) == IF k = 0 THEN 0
                   ELSE LET b == CHOOSE x \in S : \A y \in S : dist[<<a, x>>] <= dist[<<a, y>>]
                        IN  dist[<<a, b>>] + Sum(S \ {b}, k - 1)
  IN  Sum(others, take)

\* positions whose member may be the least fit one, for some order of equal averages
MayBeWorst(C, seq, dist) ==
  LET N == Len(seq)
      w == IF N <= C.el THEN 0 ELSE N - C.el
      cl == TLCEval([k \in 1..N |-> ClosestSum(C, seq, seq[k], dist)])
      low(k) == Cardinality({j \in 1..N : cl[j] > cl[k]})
      high(k) == Cardinality({j \in 1..N : cl[j] >= cl[k]}) - 1
      fmin(k) == N * (k - 1) + w * low(k)
      fmax(k) == N * (k - 1) + w * high(k)
      zero == {k \in 2..N : \E j \in 1..N : j # k /\ dist[<<seq[j], seq[k]>>] = 0}
      from == IF zero # {} THEN zero ELSE 2..N
  IN  {k \in from : \A j \in from : fmin(j) <= fmax(k)}

RECURSIVE SurvivorsOf(_, _, _, _)
\* survivor selection may turn one of the sequences S, all of one length, into one with exactly the
\* members of goal
SurvivorsOf(C, S, goal, dist) ==
  IF S = {} THEN FALSE
  ELSE IF Len(CHOOSE seq \in S : TRUE) = Cardinality(goal) THEN \E seq \in S : Range(seq) = goal
  ELSE LET less == TLCEval(UNION {{RemoveAt(seq, k) : k \in {j \in MayBeWorst(C, seq, dist) : seq[j] \notin goal}} : seq \in S})
       IN  SurvivorsOf(C, less, goal, dist)
CanBecome(C, seq, goal, dist) == SurvivorsOf(C, {seq}, goal, dist)

\* the sequences that arise by inserting a at a place that keeps the order of costs
Insertions(s, a, cost) ==
  {SubSeq(s.m, 1, k) \o <<a>> \o SubSeq(s.m, k + 1, Size(s)) : k \in
     {j \in 0..Size(s) : /\ (j > 0 => s.c[j] <= cost) /\ (j < Size(s) => cost <= s.c[j + 1])}}

\* pre becomes post by inserting solution a of that cost
InsertCheck(C, pre, post, a, cost, nb) ==
  LET both(b) == {BrokenPairsN(C, nb[a], nb[b]), BrokenPairsN(C, nb[b], nb[a])}
      clone == \E b \in Members(pre) : both(b) = {0}
      mayclone == \E b \in Members(pre) : 0 \in both(b)
      kept == Members(pre) \cup {a}
      all == kept
      dist == TLCEval([p \in all \X all |->
                IF p[1] = p[2] THEN 0
                ELSE IF p[1] \in Members(pre) /\ p[2] \in Members(pre)
                     THEN (CHOOSE x \in Range(PairsOf(pre, p[1])) : x[2] = p[2])[1]
                     ELSE LET b == IF p[1] = a THEN p[2] ELSE p[1]
                          IN  IF a \in Members(post) /\ b \in Members(post)
                              THEN (CHOOSE x \in Range(PairsOf(post, a)) : x[2] = b)[1]
                              ELSE BrokenPairsN(C, nb[b], nb[a])])
      discarded == Members(post) = Members(pre)
      inserted == IF Size(pre) + 1 < C.max THEN Members(post) = kept
                  ELSE /\ Size(post) = C.min
                       /\ Members(post) \subseteq kept
                       \* (with very many removals at once there are too many orders of ties;
                       \* single removals are checked on their own)
                       /\ \/ Size(pre) + 1 - C.min > 8
                          \/ \E seq \in Insertions(pre, a, cost) : CanBecome(C, seq, Members(post), dist)
  IN  IF clone THEN discarded
      ELSE IF mayclone THEN discarded \/ inserted
      ELSE inserted

Untouched(pre, post) == pre.m = post.m /\ pre.c = post.c
=============================================================================
