------------------------------ MODULE T_Sector ------------------------------
(* Recorded sectors of the real code against Sector.                       *)
EXTENDS TraceBase

\* the names of the failing checks of a sequence of <<name, ok>>
Failing(checks) == {checks[k][1] : k \in {j \in DOMAIN checks : ~checks[j][2]}}

VARIABLES l

S == INSTANCE Sector WITH M <- 65536

RECURSIVE StepsOk(_, _, _)
\* every extension is the one of the specification
StepsOk(a, steps, k) ==
  IF k = 0 THEN TRUE
  ELSE /\ StepsOk(a, steps, k - 1)
       /\ steps[k] \in IF k = 1 THEN {S!SetTo(a[1])} ELSE S!Grows(steps[k - 1], a[k])

Quadrant(p) == \* <<from, to>> of the polar angle of a point other than the origin
  CASE p[1] > 0 /\ p[2] = 0 -> <<0, 0>>
    [] p[1] > 0 /\ p[2] > 0 -> <<0, 16384>>
    [] p[1] = 0 /\ p[2] > 0 -> <<16384, 16384>>
    [] p[1] < 0 /\ p[2] > 0 -> <<16384, 32768>>
    [] p[1] < 0 /\ p[2] = 0 -> <<32768, 32768>>
    [] p[1] < 0 /\ p[2] < 0 -> <<32768, 49152>>
    [] p[1] = 0 /\ p[2] < 0 -> <<49152, 49152>>
    [] p[1] > 0 /\ p[2] < 0 -> <<49152, 65536>>
    [] OTHER -> <<0, 65536>>
InQuadrant(a, p) == LET q == Quadrant(p) IN
  /\ a \in 0..65535
  /\ \/ q[1] <= a /\ a <= q[2]
     \/ q[2] = 65536 /\ a = 0
\* twice the signed area of the origin, p and r: counterclockwise order within a half plane
Cross(p, r) == p[1] * r[2] - p[2] * r[1]
Dot(p, r) == p[1] * r[1] + p[2] * r[2]

Check(t) ==
  CASE t.k = "inst" -> {}
    [] t.k = "ext" ->
         IF Len(t.steps) # Len(t.a) THEN {"steps"}
         ELSE LET last == t.steps[Len(t.a)]
              IN Failing(<<
                <<"contains-all-its-angles", \A k \in 1..Len(t.a) : \A j \in 1..k : S!Encloses(t.steps[k], t.a[j])>>,
                <<"grows-by-the-nearer-side", StepsOk(t.a, t.steps, Len(t.a))>>,
                <<"enclosed", \A k \in 1..Len(t.probes) : t.enc[k] = S!Encloses(last, t.probes[k])>> >>)
    [] t.k = "ov" -> Failing(<<
         <<"overlap", t.xy = S!Overlap(t.x, t.y)>>,
         <<"symmetric", t.xy = t.yx>> >>)
    [] t.k = "ang" -> Failing(<<
         <<"angle", \A x \in 1..Len(t.ang) : t.ang[x] = t.ref[x]>>,
         <<"quadrant", \A x \in 2..Len(t.ang) : InQuadrant(t.ang[x], t.xy[x])>>,
         <<"order-of-angles", \A x, y \in 2..Len(t.ang) :
             Cross(t.xy[x], t.xy[y]) > 0 => (t.ang[y] - t.ang[x]) % 65536 <= 32768>> >>)
    [] t.k = "rt" -> Failing(<<
         <<"sector-contains-its-customers", \A k \in 1..Len(t.R) : \A p \in 1..Len(t.R[k]) :
             S!Encloses(t.sec[k], t.ang[t.R[k][p] + 1])>>,
         <<"sector-of-the-route", \A k \in 1..Len(t.R) : Len(t.R[k]) > 0 =>
             t.sec[k] \in S!SectorsOf([p \in 1..Len(t.R[k]) |-> t.ang[t.R[k][p] + 1]])>> >>)

Init == l = 0
Next ==
  /\ l < TraceLen
  /\ l' = l + 1
  /\ Report(l + 1, Check(Log[l + 1]))
  /\ ReportEnd(l + 1)
Spec == Init /\ [][Next]_l
=============================================================================
