------------------------------- MODULE MC_File ------------------------------
(***************************************************************************)
(* Reading a file line by line, in one pass and without knowing what comes *)
(* next, for every order of its parts.  What the reader has got in the end *)
(* is what InstanceFile says.  The files are given to the real reader, in  *)
(* different spacings.                                                     *)
(***************************************************************************)
EXTENDS InstanceFile, Json, IOUtils, CSV

CONSTANT EXPLICIT

M == 3
Dim == << <<"DIMENSION", "3">> >>
Cap == << <<"CAPACITY", "20.5">> >>
Comment == << <<"COMMENT", "DIMENSION", "7", "CAPACITY">> >>
Type == << <<"EDGE_WEIGHT_TYPE", IF EXPLICIT THEN "EXPLICIT" ELSE "EUC_2D">> >>
Format == << <<"EDGE_WEIGHT_FORMAT", "LOWER_ROW">> >>
Coord == << <<"NODE_COORD_SECTION">>, <<"1", "10", "-4">>, <<"2", "0.5", "+3">>, <<"3", "1e2", "-0">> >>
Demand == << <<"DEMAND_SECTION">>, <<"1", "0">>, <<"2", "20.50">>, <<"3", "7">> >>
Weight == << <<"EDGE_WEIGHT_SECTION">>, <<"5.25">>, <<"6", "0">> >>
Depot == << <<"DEPOT_SECTION">>, <<"1">>, <<"-1">> >>
Parts == IF EXPLICIT THEN <<Dim, Cap, Type, Format, Coord, Demand, Weight>>
         ELSE <<Dim, Cap, Comment, Type, Coord, Demand, Depot>>
V == [w \in {"", "3", "20.5", "7", "10", "-4", "0.5", "+3", "1e2", "-0", "0", "20.50", "5.25", "6", "1", "2", "-1"} |->
        CASE w = "" -> 100 [] w = "3" -> 300 [] w = "20.5" -> 2050 [] w = "7" -> 700 [] w = "10" -> 1000 [] w = "-4" -> 0 - 400
          [] w = "0.5" -> 50 [] w = "+3" -> 300 [] w = "1e2" -> 10000 [] w = "-0" -> 0 [] w = "0" -> 0
          [] w = "20.50" -> 2050 [] w = "5.25" -> 525 [] w = "6" -> 600 [] w = "1" -> 100 [] w = "2" -> 200 [] w = "-1" -> 0 - 100]
Keywords == {"DIMENSION", "CAPACITY", "COMMENT", "EDGE_WEIGHT_TYPE", "EDGE_WEIGHT_FORMAT", "NODE_COORD_SECTION",
             "DEMAND_SECTION", "EDGE_WEIGHT_SECTION", "DEPOT_SECTION"}

Orders == {p \in [1..Len(Parts) -> 1..Len(Parts)] : \A a, b \in 1..Len(Parts) : a # b => p[a] # p[b]}
InOrder(p) == [k \in 1..Len(Parts) |-> Parts[p[k]]]
File(p) == Flatten(InOrder(p))

VARIABLES p, k, mode, dim, cap, kind, xy, q, rows
vars == <<p, k, mode, dim, cap, kind, xy, q, rows>>
f == File(p)
Init == /\ p \in Orders /\ k = 1 /\ mode = "" /\ dim = 0 /\ cap = 0 /\ kind = "" /\ xy = <<>> /\ q = <<>> /\ rows = <<>>
Line ==
  LET w == f[k]
      is(x) == w[1] = x
      in(x) == w[1] \notin Keywords /\ mode = x
  IN  /\ k <= Len(f) /\ k' = k + 1 /\ p' = p
      /\ mode' = IF w[1] \in Keywords THEN w[1] ELSE mode
      /\ dim' = IF is("DIMENSION") THEN V[w[2]] \div V[""] ELSE dim
      /\ cap' = IF is("CAPACITY") THEN V[w[2]] ELSE cap
      /\ kind' = IF is("EDGE_WEIGHT_TYPE") THEN w[2] ELSE kind
      /\ xy' = IF in("NODE_COORD_SECTION") THEN Append(xy, <<V[w[2]], V[w[3]]>>) ELSE xy
      /\ q' = IF in("DEMAND_SECTION") THEN Append(q, V[w[2]]) ELSE q
      /\ rows' = IF in("EDGE_WEIGHT_SECTION") THEN Append(rows, [j \in DOMAIN w |-> V[w[j]]]) ELSE rows
Next == Line
Spec == Init /\ [][Next]_vars

InTheEnd == k > Len(f) =>
  /\ WellFormed(f, V)
  /\ dim = Dimension(f, V) /\ cap = Capacity(f, V) /\ (kind = "EXPLICIT") = Explicit(f)
  /\ xy = Coordinates(f, V) /\ q = Demands(f, V)
  /\ EXPLICIT => rows = LowerRows(f, V)
\* nothing depends on the order
SameInstance == k > Len(f) => AsInstance(f, V) = [n |-> 2, q |-> <<0, 2050, 700>>, cap |-> 2050] /\ FleetSize(AsInstance(f, V)) = 5

Export == IF "OUT" \in DOMAIN IOEnv /\ k = 1
          THEN CSVWrite("%1$s", <<ToJson([parts |-> InOrder(p), num |-> V, m |-> M, explicit |-> EXPLICIT])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
