------------------------------- MODULE T_Pop --------------------------------
(* Recorded populations of the real code against Population.               *)
EXTENDS TraceBase, Population

VARIABLES l, inst, prev, nb

Nothing == [m |-> <<>>, c |-> <<>>, f |-> <<>>, x |-> <<>>, dk |-> <<>>, dd |-> <<>>]
Empty == [fe |-> Nothing, in |-> Nothing, tot |-> 0]

AddCheck(C, pre, t, nbs) ==
  LET post == t.post
      feas == CapacityOk(C, t.R)
      cost == Cost(C, t.R, C.P)
      S1 == SubPopOk(C, post.fe, nbs, TRUE)
      S2 == SubPopOk(C, post["in"], nbs, FALSE)
      ok == S1 = {} /\ S2 = {}
  IN  S1 \cup S2
      \cup Failing(<<
        <<"identity-counts-up", t.num = pre.tot /\ post.tot = pre.tot + 1>>,
        <<"members-unchanged", post.changed = <<>> >>,
        <<"cost-of-the-member", \A s \in {post.fe, post["in"]} : \A k \in 1..Size(s) : s.m[k] = t.num => s.c[k] = cost>>,
        <<"other-class-untouched", IF feas THEN Untouched(pre["in"], post["in"]) ELSE Untouched(pre.fe, post.fe)>> >>)
      \cup (IF ~ok THEN {}
            ELSE Failing(<< <<"insertion-and-survival",
                   IF feas THEN InsertCheck(C, pre.fe, post.fe, t.num, cost, nbs)
                   ELSE InsertCheck(C, pre["in"], post["in"], t.num, cost, nbs)>> >>))

SelectCheck(C, t) ==
  LET s == t.pre
  IN  IF \E k \in Removable(s) : t.post.m = RemoveAt(s.m, k) THEN {} ELSE {"survivor-selection"}

\* parent selection: rank[k] members are strictly fitter than member k
ParentCheck(t) ==
  LET N == Len(t.m)
      at(x) == CHOOSE k \in 1..N : t.m[k] = x
      worst == {k \in 1..N : \A j \in 1..N : t.rank[j] <= t.rank[k]}
      best == {k \in 1..N : t.rank[k] = 0}
  IN Failing(<<
       <<"every-member-can-be-drawn", Range(t.one) = Range(t.m)>>,
       <<"fittest-of-many", t.win \in Range(t.m) /\ t.rank[at(t.win)] = 0>>,
       <<"worst-wins-only-against-itself", N >= 5 /\ Cardinality(worst) = 1 => \A k \in worst : t.two[k] <= 110>>,
       <<"best-wins-often", N >= 5 /\ Cardinality(best) = 1 => \A k \in best : t.two[k] >= 28 * (2 * N - 1)>> >>)

Check(C, pre, t, nbs) ==
  CASE t.k \in {"inst", "screened", "set"} -> {}
    [] t.k = "add"  -> AddCheck(C, pre, t, nbs)
    [] t.k = "ns"   -> SelectCheck(C, t)
    [] t.k = "par"  -> ParentCheck(t)

Init == l = 0 /\ inst = 1 /\ prev = Empty /\ nb = <<>>
Next ==
  /\ l < TraceLen
  /\ l' = l + 1
  /\ LET t == Log[l + 1] IN
     /\ inst' = IF t.k = "inst" THEN l + 1 ELSE inst
     /\ nb' = IF t.k = "inst" THEN [x \in {} |-> <<>>]
              ELSE IF t.k = "set" THEN [a \in {t.of[k][1] : k \in DOMAIN t.of} |->
                      TLCEval(Nbrs(Log[inst], t.of[CHOOSE k \in DOMAIN t.of : t.of[k][1] = a][2]))]
              ELSE IF t.k = "add" THEN (t.num :> TLCEval(Nbrs(Log[inst], t.R))) @@ nb ELSE nb
     /\ prev' = IF t.k = "inst" THEN Empty ELSE IF t.k \in {"add", "set"} THEN t.post ELSE prev
     /\ Report(l + 1, Check(Log[inst'], prev, t, nb'))
     /\ ReportEnd(l + 1)
Spec == Init /\ [][Next]_<<l, inst, prev, nb>>
=============================================================================
