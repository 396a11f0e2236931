----------------------------- MODULE MC_Sector ------------------------------
(***************************************************************************)
(* The sector of a route as it takes in one customer after the other, on a *)
(* circle of M units.  Every sequence of D angles is one behaviour; if OUT *)
(* is set they are written there, in units of 65536, for the real code.    *)
(***************************************************************************)
EXTENDS Sector, TLC, Json, IOUtils, CSV

CONSTANT DEPTH

VARIABLES sec,    \* the sector, or <<>> before the first customer
          seen    \* the angles taken in, in order
vars == <<sec, seen>>

Sectors == [s : Angles, e : Angles]

Init == sec = <<>> /\ seen = <<>>
First(a) == sec = <<>> /\ sec' = SetTo(a) /\ seen' = <<a>>
Extend(a) == sec # <<>> /\ sec' \in Grows(sec, a) /\ seen' = Append(seen, a)
Reset == sec # <<>> /\ sec' = <<>> /\ seen' = <<>>
Next == \/ Len(seen) < DEPTH /\ (\E a \in Angles : First(a) \/ Extend(a))
        \/ Reset
Spec == Init /\ [][Next]_vars

\* every customer is in the sector
EnclosesAll == sec = <<>> \/ \A k \in 1..Len(seen) : Encloses(sec, seen[k])
\* the sector begins and ends at a customer
Tight == sec = <<>> \/ {sec.s, sec.e} \subseteq {seen[k] : k \in 1..Len(seen)}
\* it never gets smaller, and grows by no more than the nearer side needs
Gap(s, a) == IF Encloses(s, a) THEN 0
             ELSE IF (a - s.e) % M <= (s.s - a) % M THEN (a - s.e) % M ELSE (s.s - a) % M
Growth == [][\A a \in Angles : (sec # <<>> /\ Extend(a)) => Arc(sec) \subseteq Arc(sec') /\ Width(sec') = Width(sec) + Gap(sec, a)]_vars
\* Overlap tells whether two sectors have a direction in common
ASSUME \A o \in Sectors : \A p \in Sectors :
  /\ Overlap(p, o) = (Arc(p) \cap Arc(o) # {})
  /\ Overlap(p, o) = Overlap(o, p)
\* the reference resolves ties as the code does, and is one of the allowed ones
Reference == sec = <<>> \/ SectorOf(seen) \in SectorsOf(seen)

Export == IF "OUT" \in DOMAIN IOEnv /\ Len(seen) = DEPTH
          THEN CSVWrite("%1$s", <<ToJson([k \in 1..DEPTH |-> seen[k] * (65536 \div M)])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
