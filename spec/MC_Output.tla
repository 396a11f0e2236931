------------------------------ MODULE MC_Output -----------------------------
(***************************************************************************)
(* Recording solutions, writing the solution file, and someone else        *)
(* writing into the file, in any order.  After a writing the file holds    *)
(* the text of the last recorded solution and nothing else.  The sequences *)
(* are replayed.                                                           *)
(***************************************************************************)
EXTENDS Output, Json, IOUtils, CSV

CONSTANTS N, ROUTES, DEPTH, WHICH

Perms == {p \in [1..N -> 1..N] : \A a, b \in 1..N : a # b => p[a] # p[b]}
Ends(k) == {e \in [1..k -> 0..N] : e[k] = N /\ \A j \in 1..(k - 1) : e[j] <= e[j + 1]}
Pieces(p, k, e) == [j \in 1..k |-> SubSeq(p, (IF j = 1 THEN 0 ELSE e[j - 1]) + 1, e[j])]
Solutions == IF WHICH = "all" THEN UNION {{Pieces(p, k, e) : p \in Perms, e \in Ends(k)} : k \in 1..ROUTES}
             ELSE { << <<1, 2>>, <<3>> >>, << <<>>, <<3, 2, 1>> >>, << <<2>>, <<>>, <<1, 3>>, <<>> >> }
\* in thousandths
Costs == IF WHICH = "all" THEN {7000, 12499} ELSE {999, 99500, 99499, 1000000}

\* rec: the last recorded [R, c] (R = "none" if there is none), file: its lines or the junk in it
VARIABLES rec, file, fresh, hist
vars == <<rec, file, fresh, hist>>
Junk == << <<"Route", "#1:", "77">>, <<"x">> >>
Nothing == [R |-> <<>>, c |-> 0 - 1]

Init == rec = Nothing /\ file = <<>> /\ fresh = FALSE /\ hist = <<>>
Record == \E R \in Solutions : \E c \in Costs :
            /\ rec' = [R |-> R, c |-> c] /\ fresh' = FALSE /\ UNCHANGED file
            /\ hist' = Append(hist, [op |-> "rec", R |-> R, c |-> c])
Rounded(c) == (c + 500) \div 1000
Text(r) == IF r = Nothing THEN <<>>
           ELSE LET s == SolutionLines(r.R) IN [s EXCEPT ![Len(s)] = @ \o <<ToString(Rounded(r.c))>>]
Write == /\ file' = Text(rec) /\ fresh' = TRUE /\ UNCHANGED rec /\ hist' = Append(hist, [op |-> "write"])
Spoil == /\ file' = Junk \o file /\ fresh' = FALSE /\ UNCHANGED rec /\ hist' = Append(hist, [op |-> "junk"])
Next == Len(hist) < DEPTH /\ (Record \/ Write \/ Spoil)
Spec == Init /\ [][Next]_vars

Holds == fresh => IF rec = Nothing THEN file = <<>>
                  ELSE /\ IsText(file, <<0, Rounded(rec.c)>>, rec.R, <<0, rec.c>>)
                       /\ Len(file) = NumNonEmpty(rec.R) + 1
\* the text determines the routes
Readable == (fresh /\ rec # Nothing) =>
  \A k \in 1..NumNonEmpty(rec.R) : /\ file[k][2] = "#" \o ToString(k) \o ":"
                                   /\ Len(file[k]) = 2 + Len(NonEmpty(rec.R)[k])

Export == IF "OUT" \in DOMAIN IOEnv /\ Len(hist) = DEPTH
          THEN CSVWrite("%1$s", <<ToJson([ops |-> hist])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
