------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* The text of a solution, as lines of words:                              *)
(*                                                                         *)
(*      Route #1: 3 1 2                                                    *)
(*      Route #2: 4                                                        *)
(*      Cost 27                                                            *)
(*                                                                         *)
(* A cost c is a pair <<millions, rest in thousandths rounded down>>, and a *)
(* printed cost a pair <<millions, rest>>.                                 *)
(***************************************************************************)
EXTENDS CVRP

RouteLine(k, r) == <<"Route", "#" \o ToString(k) \o ":">> \o [j \in 1..Len(r) |-> ToString(r[j])]

\* lines, without the last word (the cost)
SolutionLines(R) ==
  LET N == NonEmpty(R)
  IN  [k \in 1..Len(N) |-> RouteLine(k, N[k])] \o << <<"Cost">> >>

WithoutCost(lines) ==
  [k \in 1..Len(lines) |-> IF k = Len(lines) /\ Len(lines[k]) = 2 THEN <<lines[k][1]>> ELSE lines[k]]

\* p is a nearest integer to c (and may be either one in the middle)
NearestTo(p, c) ==
  LET x == (p[1] - c[1]) * 1000000
  IN  /\ p # <<0 - 1, 0 - 1>>
      /\ Abs(p[1] - c[1]) <= 1
      /\ 2 * Abs(x + p[2] - (c[2] \div 1000)) <= 3            \* no overflow below
      /\ LET e == (x + p[2] - (c[2] \div 1000)) * 1000 - (c[2] % 1000)
         IN  e >= 0 - 501 /\ e <= 501

IsText(lines, pc, R, c) == WithoutCost(lines) = SolutionLines(R) /\ NearestTo(pc, c)
=============================================================================
