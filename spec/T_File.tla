------------------------------- MODULE T_File -------------------------------
(* Instance files as read by the real code, against InstanceFile.          *)
EXTENDS TraceBase, InstanceFile

VARIABLES l

FileCheck(t) ==
  LET f == t.lines
      V == t.num
      g == t.got
      m == Dimension(f, V)
      I == AsInstance(f, V)
  IN IF ~WellFormed(f, V) THEN {"test-file"}
     ELSE Failing(<<
       <<"dimension", g.n = I.n /\ g.dim = m>>,
       <<"capacity", g.cap = I.cap>>,
       <<"coordinates", g.xy = Coordinates(f, V)>>,
       <<"demands", g.q = I.q>>,
       <<"kind-of-distances", g.explicit = Explicit(f)>>,
       <<"distances-read", Explicit(f) => g.rows = LowerRows(f, V)>>,
       <<"distances-used", Explicit(f) => g.d = FullMatrix(LowerRows(f, V), m)>>,
       <<"lower-bound", g.lb = LowerBound(I)>>,
       <<"fleet-size", g.N = FleetSize(I)>> >>)

Init == l = 0
Next ==
  /\ l < TraceLen
  /\ l' = l + 1
  /\ Report(l + 1, FileCheck(Log[l + 1]))
  /\ ReportEnd(l + 1)
Spec == Init /\ [][Next]_l
=============================================================================
