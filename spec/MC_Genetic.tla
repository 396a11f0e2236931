----------------------------- MODULE MC_Genetic -----------------------------
(***************************************************************************)
(* The genetic algorithm as a state machine, as the code runs it, with the *)
(* solutions reduced to what the course of the run depends on: whether a   *)
(* new individual is feasible, what it costs, and whether a repaired copy  *)
(* of it is found.  The window of the last individuals has WINDOW places.  *)
(* The penalty is a power of its factor, from LOW to HIGH.                 *)
(***************************************************************************)
EXTENDS Genetic, FiniteSetsExt, Json, IOUtils, CSV

CONSTANTS INI, MAXIT, NOIMP, INTERVAL, TARGET, COSTS, ELITE, WINDOW, LOW, HIGH, START

VARIABLES ph,       \* "created", "elite", "initialization", "cycle", "terminated"
          ci, it,   \* generations, and as the algorithm counts them
          ni, w, lb, bi, npu,   \* of this life, as in Genetic
          P,
          hist,     \* costs of the recorded solutions
          feas,     \* costs of the feasible solutions of this life, those seen in all lives
          seen,
          at        \* generations of this life at which the penalty was looked at
vars == <<ph, ci, it, ni, w, lb, bi, npu, P, hist, feas, seen, at>>
C == [ini |-> INI, noimp |-> NOIMP, interval |-> INTERVAL, target |-> TARGET]

NewWindow == [k \in 1..WINDOW |-> 1]
Init == /\ ph = "created" /\ ci = 0 /\ it = 0 /\ ni = 0 /\ w = NewWindow /\ lb = Infinite
        /\ bi = 0 /\ npu = 0 /\ P = START /\ hist = <<>> /\ feas = {} /\ seen = {} /\ at = <<>>

\* what comes out of the education of an individual: the feasible solutions in the order
\* they are compared with the best, and whether it is feasible itself
Outcomes == {[f |-> <<c>>, x |-> TRUE] : c \in COSTS}
            \cup {[f |-> <<>>, x |-> FALSE]} \cup {[f |-> <<c>>, x |-> FALSE] : c \in COSTS}

BestOf(h) == IF h = <<>> THEN Infinite ELSE h[Len(h)]
\* compare the solutions of outcome o
Compare(o) ==
  IF o.f = <<>> THEN UNCHANGED <<lb, bi, hist, feas, seen>>
  ELSE LET c == o.f[1]
       IN  /\ feas' = feas \cup {c} /\ seen' = seen \cup {c}
           /\ IF c < lb THEN lb' = c /\ bi' = it ELSE UNCHANGED <<lb, bi>>
           /\ hist' = IF c < lb /\ c < BestOf(hist) THEN Append(hist, c) ELSE hist

Terminate == /\ ph # "terminated" /\ ci >= MAXIT /\ ph' = "terminated"
             /\ UNCHANGED <<ci, it, ni, w, lb, bi, npu, P, hist, feas, seen, at>>
Running == ph # "terminated" /\ ci < MAXIT
Created == /\ Running /\ ph = "created"
           /\ IF ELITE THEN ph' = "elite" /\ (\E o \in Outcomes : Compare(o))
              ELSE ph' = "initialization" /\ UNCHANGED <<lb, bi, hist, feas, seen>>
           /\ UNCHANGED <<ci, it, ni, w, npu, P, at>>
\* the ruin-and-recreate search of the elite phase adapts the penalty on its own
EliteStep == /\ Running /\ ph = "elite"
             /\ P' \in {Max2(0, P - 1), P, P + 1} /\ P' <= HIGH + 1
             /\ UNCHANGED <<ph, ci, it, ni, w, lb, bi, npu, hist, feas, seen, at>>
EliteEnd == /\ Running /\ ph = "elite"
            /\ ph' = "initialization" /\ P' = START
            /\ \E o \in Outcomes : Compare(o)
            /\ UNCHANGED <<ci, it, ni, w, npu, at>>
Initial == /\ Running /\ ph = "initialization" /\ ni < INI
           /\ \E o \in Outcomes : Compare(o) /\ w' = Push(w, IF o.x THEN 1 ELSE 0)
           /\ ni' = ni + 1
           /\ UNCHANGED <<ph, ci, it, npu, P, at>>
InitialEnd == /\ Running /\ ph = "initialization" /\ ni >= INI
              /\ ph' = "cycle" /\ UNCHANGED <<ci, it, ni, w, lb, bi, npu, P, hist, feas, seen, at>>
Restart == /\ ph' = "created" /\ ni' = 0 /\ w' = NewWindow /\ lb' = Infinite /\ bi' = it /\ npu' = it
           /\ feas' = {} /\ at' = <<>>
Generation ==
  /\ Running /\ ph = "cycle" /\ ci' = ci + 1 /\ it' = it + 1
  /\ \E o \in Outcomes :
       LET w2 == Push(w, IF o.x THEN 1 ELSE 0)
           c == IF o.f = <<>> THEN Infinite ELSE o.f[1]
           better == c < lb
           bi2 == IF better THEN it ELSE bi
           due == UpdateDue(it, npu)
       IN  /\ hist' = IF better /\ c < BestOf(hist) THEN Append(hist, c) ELSE hist
           /\ seen' = seen \cup {o.f[k] : k \in DOMAIN o.f}
           /\ IF due THEN \E d \in Directions(C, w2) :
                            P' = IF d = "inc" THEN Min2(P + 1, HIGH) ELSE IF d = "dec" THEN Max2(P - 1, LOW) ELSE Max2(LOW, Min2(P, HIGH))
              ELSE P' = P
           /\ IF RestartDue(C, it, bi2) THEN Restart
              ELSE /\ w' = w2 /\ bi' = bi2 /\ lb' = Min2(lb, c) /\ ph' = ph /\ ni' = ni
                   /\ feas' = feas \cup {o.f[k] : k \in DOMAIN o.f}
                   /\ npu' = IF due THEN npu + INTERVAL ELSE npu
                   /\ at' = IF due THEN Append(at, it) ELSE at
Next == Terminate \/ Created \/ EliteStep \/ EliteEnd \/ Initial \/ InitialEnd \/ Generation
Spec == Init /\ [][Next]_vars /\ WF_vars(Terminate \/ Created \/ EliteEnd \/ Initial \/ InitialEnd \/ Generation)

\* C03: records improve, and the last one is the best that was ever seen
RecordsImprove == \A k \in 1..(Len(hist) - 1) : hist[k + 1] < hist[k]
NeverMissed == seen # {} => hist # <<>> /\ hist[Len(hist)] = Min(seen)
RecordsStay == [][Len(hist') >= Len(hist) /\ SubSeq(hist', 1, Len(hist)) = hist]_vars
BestOfLife == lb = IF feas = {} THEN Infinite ELSE Min(feas)
\* C13: phases and limits
InitialFirst == /\ ni <= INI /\ (ph = "cycle" => ni = INI)
                /\ ph \in {"created", "elite"} => ni = 0
ExactlyTheLimit == ci <= MAXIT /\ (ph = "terminated" => ci = MAXIT)
Counted == ci = it
RestartsInTime == ph = "cycle" => it - bi <= NOIMP + 1
NothingAfter == [][ph # "terminated"]_vars
OnePerStep == [][ci' # ci => ph = "cycle" /\ ci' = ci + 1]_vars
Ends == <>(ph = "terminated")
\* C14: the penalty
InBounds == (ph = "cycle" /\ at # <<>>) => P \in LOW..HIGH
LookedAtInIntervals ==
  /\ \A k \in 1..(Len(at) - 1) : at[k + 1] - at[k] = INTERVAL \/ (k = 1 /\ at[k + 1] - at[k] = INTERVAL - 1)
  /\ (ph = "cycle" /\ at # <<>>) => it - at[Len(at)] <= INTERVAL
OnlyWhenDue == [][(P' # P /\ ph = "cycle") => UpdateDue(it, npu)]_vars
RightWay == [][ph = "cycle" /\ ph' = "cycle" =>
                 /\ P' > P => 100 * CountOnes(w') <= (TARGET - 5) * WINDOW \/ P < LOW
                 /\ P' < P => 100 * CountOnes(w') >= (TARGET + 5) * WINDOW \/ P > HIGH]_vars
\* the share counts the individuals of this life
Window == Len(w) = WINDOW
=============================================================================
