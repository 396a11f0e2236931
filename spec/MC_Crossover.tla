---------------------------- MODULE MC_Crossover ----------------------------
(***************************************************************************)
(* Order crossover as the code performs it, one gene after the other, for  *)
(* every second parent and every two different cut points (the first       *)
(* parent is 1, 2, ..: only the places of its genes matter).  The child    *)
(* is the one Genetic defines, and Genetic's test for a child accepts the  *)
(* children of the two parents and nothing else.                           *)
(***************************************************************************)
EXTENDS Genetic, Json, IOUtils, CSV

CONSTANT N

VARIABLES p2, s, e, g, index, added, k, ph
vars == <<p2, s, e, g, index, added, k, ph>>

p1 == [x \in 1..N |-> x]
Perms == {p \in [1..N -> 1..N] : \A a, b \in 1..N : a # b => p[a] # p[b]}
Wrap(x) == IF x = N + 1 THEN 1 ELSE x

Init == /\ p2 \in Perms /\ \E c \in Cuts(N) : s = c[1] /\ e = c[2]
        /\ g = p1 /\ index = s /\ added = {} /\ k = 1 /\ ph = "keep"
Keep == /\ ph = "keep"
        /\ added' = added \cup {g[index]} /\ index' = Wrap(index + 1)
        /\ ph' = IF index = e THEN "fill" ELSE "keep"
        /\ UNCHANGED <<p2, s, e, g, k>>
Fill == /\ ph = "fill" /\ k <= N /\ k' = k + 1
        /\ IF p2[k] \in added THEN UNCHANGED <<g, index, added>>
           ELSE /\ added' = added \cup {p2[k]} /\ g' = [g EXCEPT ![index] = p2[k]] /\ index' = Wrap(index + 1)
        /\ UNCHANGED <<p2, s, e, ph>>
Done == ph = "fill" /\ k > N /\ ph' = "done" /\ UNCHANGED <<p2, s, e, g, index, added, k>>
Next == Keep \/ Fill \/ Done
Spec == Init /\ [][Next]_vars

SectionKept == \A x \in Section(N, s, e) : g[x] = p1[x]
IsTheChild == ph = "done" =>
  /\ g = OX(p1, p2, s, e)
  /\ {g[x] : x \in 1..N} = 1..N
  /\ IsChild(g, {p1, p2})
NothingElse == (ph = "keep" /\ index = s /\ <<s, e>> = <<1, 2>>) =>
  {h \in Perms : IsChild(h, {p1, p2})}
  = UNION {{OX(a, b, c[1], c[2]) : a \in {p1, p2}, b \in {p1, p2}} : c \in Cuts(N)}

Export == IF "OUT" \in DOMAIN IOEnv /\ ph = "keep" /\ index = s /\ s = 1 /\ e = 2
          THEN CSVWrite("%1$s", <<ToJson([p1 |-> p1, p2 |-> p2])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
