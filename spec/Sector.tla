------------------------------- MODULE Sector -------------------------------
(***************************************************************************)
(* Circular sectors of routes.  Angles are integers modulo M.  A sector    *)
(* <<s, e>> is the arc from s counterclockwise to e.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT M            \* number of angle units of the full circle

Angles == 0..(M - 1)
Norm(x) == x % M
Width(sec) == (sec.e - sec.s) % M
Encloses(sec, a) == (a - sec.s) % M <= Width(sec)
Arc(sec) == {a \in Angles : Encloses(sec, a)}
SetTo(a) == [s |-> a, e |-> a]

\* Take in one more angle: unchanged if enclosed, else grow on the nearer side.
Grow(sec, a) ==
  IF Encloses(sec, a) THEN sec
  ELSE IF (a - sec.e) % M <= (sec.s - a) % M THEN [sec EXCEPT !.e = a] ELSE [sec EXCEPT !.s = a]

\* The same without saying which side grows if both are equally near
Grows(sec, a) ==
  IF Encloses(sec, a) THEN {sec}
  ELSE LET right == (a - sec.e) % M
           left == (sec.s - a) % M
       IN  (IF right <= left THEN {[sec EXCEPT !.e = a]} ELSE {})
           \cup (IF left <= right THEN {[sec EXCEPT !.s = a]} ELSE {})

RECURSIVE SectorsTo(_, _)
SectorsTo(angles, k) ==
  IF k = 1 THEN {SetTo(angles[1])} ELSE UNION {Grows(sec, angles[k]) : sec \in SectorsTo(angles, k - 1)}
SectorsOf(angles) == SectorsTo(angles, Len(angles))

RECURSIVE SectorTo(_, _)
SectorTo(angles, k) == IF k = 1 THEN SetTo(angles[1]) ELSE Grow(SectorTo(angles, k - 1), angles[k])
SectorOf(angles) == SectorTo(angles, Len(angles))     \* of a non-empty sequence

Overlap(a, b) == Encloses(a, b.s) \/ Encloses(b, a.s)
=============================================================================
