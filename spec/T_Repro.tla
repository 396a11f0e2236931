------------------------------- MODULE T_Repro ------------------------------
(***************************************************************************)
(* A deterministic run is a function of its input: whatever was observed   *)
(* of one run at step k is what is observed of another one.  a, b, c are   *)
(* three runs of a case: sequences of observations (recorded solutions,    *)
(* events, penalty, populations, child) after each step.                   *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES l

\* the first step at which two behaviours part, and the observations that differ there
Parted(x, y) == {k \in 1..Len(x) : k > Len(y) \/ x[k] # y[k]} \cup (IF Len(y) > Len(x) THEN {Len(x) + 1} ELSE {})
First(S) == CHOOSE k \in S : \A j \in S : k <= j

Differences(name, x, y) ==
  LET S == Parted(x, y)
  IN  IF S = {} THEN {} ELSE {name \o " part at step " \o ToString(First(S))}

Check(t) ==
  IF t.k = "screened" THEN {}
  ELSE Differences("runs of one process", t.a, t.b) \cup Differences("runs of two processes", t.a, t.c)

Init == l = 0
Next ==
  /\ l < TraceLen
  /\ l' = l + 1
  /\ Report(l + 1, Check(Log[l + 1]))
  /\ ReportEnd(l + 1)
Spec == Init /\ [][Next]_l
=============================================================================
