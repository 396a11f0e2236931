------------------------------ MODULE Schedule ------------------------------
(***************************************************************************)
(* The cooling schedules.                                                  *)
(*                                                                         *)
(* A schedule of n steps has performed i of them since it was created or   *)
(* reset.  Its temperature is a function of i / n that falls from the      *)
(* start temperature to zero:  e^-2x - x e^-2  for x = i/n.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* e^-2x in millionths for x = 0, 1/20, ..., 1
Exp20 == <<1000000, 904837, 818731, 740818, 670320, 606531, 548812, 496585, 449329, 406570,
           367879, 332871, 301194, 272532, 246597, 223130, 201897, 182684, 165299, 149569, 135335>>
\* temperature in millionths of the start temperature after i of n steps, if 20 i / n is whole
Curve(i, n) == LET x == (20 * i) \div n IN Exp20[x + 1] - (x * 135335) \div 20
OnGrid(i, n) == (20 * i) % n = 0 /\ i <= n
\* between two points of the table the curve is convex and falls
CurveBounds(i, n, t) ==
  IF i > n THEN t <= 2
  ELSE IF OnGrid(i, n) THEN t - Curve(i, n) \in -2..2
  ELSE LET x == (20 * i) \div n IN
       /\ t >= Exp20[x + 2] - ((x + 1) * 135335) \div 20 - 2
       /\ t <= Exp20[x + 1] - (x * 135335) \div 20 + 2

(***************************************************************************)
(* The iteration schedule as a state machine: i is the number of steps     *)
(***************************************************************************)
Step(i, op) == IF op = "reset" THEN 0 ELSE i + 1
Finished(i, n) == i >= n

(***************************************************************************)
(* The time schedule: every rate-th step refreshes the temperature and     *)
(* notices that the duration has passed.  State: steps since the last      *)
(* refresh, and whether the end has been noticed.                          *)
(***************************************************************************)
TimeNew == [c |-> 0, done |-> FALSE, fresh |-> TRUE]
TimeStep(s, op, rate, passed) ==
  IF op = "reset" THEN TimeNew
  ELSE IF s.c + 1 = rate THEN [c |-> 0, done |-> s.done \/ passed, fresh |-> FALSE]
  ELSE [s EXCEPT !.c = @ + 1]
=============================================================================
