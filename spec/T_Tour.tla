------------------------------- MODULE T_Tour -------------------------------
(* Recorded solutions of the real code against Tour.                       *)
EXTENDS TraceBase, Tour

VARIABLES l, xy

AsMany(A, B)     == /\ Len(A) = Len(B)
                    /\ \A k \in 1..Len(A) : Count(A, A[k]) = Count(B, A[k])

Check(t, c) ==
  CASE t.k = "inst" -> {}
    [] t.k = "sort" -> TourCheck(c, t.R, t.g) \cup Failing(<< <<"the-same-routes", AsMany(t.of, t.R)>> >>)
    [] t.k \in {"member", "child", "split", "ls", "rr", "global"} -> TourCheck(c, t.R, t.g)
    \* of a subproblem, which has coordinates of its own
    [] t.k = "sub" -> TourCheck(t.xy, t.R, t.g)

Init == l = 0 /\ xy = <<>>
Next ==
  /\ l < TraceLen
  /\ l' = l + 1
  /\ xy' = IF Log[l + 1].k = "inst" THEN Log[l + 1].xy ELSE xy
  /\ Report(l + 1, Check(Log[l + 1], xy'))
  /\ ReportEnd(l + 1)
Spec == Init /\ [][Next]_<<l, xy>>
=============================================================================
