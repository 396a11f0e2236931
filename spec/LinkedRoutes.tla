---------------------------- MODULE LinkedRoutes ----------------------------
(***************************************************************************)
(* The doubly linked routes of the local search, and the pointer surgery   *)
(* and the cost formulas of the nine moves as the code has them.           *)
(*                                                                         *)
(* Nodes: customer x is x, the start depot of route k is -k, its end depot *)
(* is -(END + k), and Null stands for no node.                             *)
(* A structure s has functions succ and pred on the nodes.                 *)
(***************************************************************************)
EXTENDS LinkState, Moves

END == 100
Null == 0
StartOf(k) == 0 - k
EndOf(k) == 0 - (END + k)
Number(x) == IF x > 0 THEN x ELSE 0
IsDepot(x) == x < 0
NodesOf(I) == Customers(I) \cup {StartOf(k) : k \in 1..I.N} \cup {EndOf(k) : k \in 1..I.N}

Link(s, a, b) == [succ |-> [s.succ EXCEPT ![a] = b], pred |-> [s.pred EXCEPT ![b] = a]]

\* loading the routes R
WithDepots(R, k) == <<StartOf(k)>> \o R[k] \o <<EndOf(k)>>
Load0(I, R) ==
  LET of(x) == IF IsDepot(x) THEN (IF x < 0 - END THEN 0 - (x + END) ELSE 0 - x) ELSE RouteOf(R, x)
      at(x) == LET w == WithDepots(R, of(x)) IN CHOOSE p \in 1..Len(w) : w[p] = x
  IN  [succ |-> [x \in NodesOf(I) |-> LET w == WithDepots(R, of(x)) IN IF at(x) = Len(w) THEN Null ELSE w[at(x) + 1]],
       pred |-> [x \in NodesOf(I) |-> LET w == WithDepots(R, of(x)) IN IF at(x) = 1 THEN Null ELSE w[at(x) - 1]]]

\* closing the ends of route k again
Refresh(s, k) == [succ |-> [s.succ EXCEPT ![EndOf(k)] = Null], pred |-> [s.pred EXCEPT ![StartOf(k)] = Null]]

\* reading route k forward from its start, backward from its end
RECURSIVE Forward(_, _, _)
Forward(s, x, fuel) == IF x = Null \/ fuel = 0 THEN <<>> ELSE <<x>> \o Forward(s, s.succ[x], fuel - 1)
RECURSIVE Backward(_, _, _)
Backward(s, x, fuel) == IF x = Null \/ fuel = 0 THEN <<>> ELSE Backward(s, s.pred[x], fuel - 1) \o <<x>>
Read(I, s, k) == Forward(s, StartOf(k), I.n + 3)
ReadBack(I, s, k) == Backward(s, EndOf(k), I.n + 3)

RECURSIVE ForwardReverse(_, _, _, _)
ForwardReverse(s, from, node, newfirst) ==
  IF node = Null THEN s
  ELSE LET next == s.succ[node]
           s1 == IF next = Null /\ newfirst # Null THEN Link(s, newfirst, from) ELSE Link(s, node, from)
       IN  ForwardReverse(s1, node, next, newfirst)
RECURSIVE BackwardReverse(_, _, _, _, _)
BackwardReverse(s, from, node, to, newlast) ==
  IF node = Null THEN s
  ELSE LET next == s.pred[node]
           s1 == IF next = Null /\ newlast # Null THEN Link(s, from, newlast) ELSE Link(s, from, node)
       IN  IF to # Null /\ Number(node) = Number(to) THEN s1 ELSE BackwardReverse(s1, node, next, to, newlast)
RECURSIVE ReplaceEnd(_, _, _, _)
ReplaceEnd(s, from, node, end) ==
  IF node = Null THEN s
  ELSE LET s1 == IF s.succ[node] = Null THEN Link(s, from, end) ELSE s
       IN  ReplaceEnd(s1, node, s1.succ[node], end)

\* r(x): the route of node x
Perform(m, s, u, v, k1, k2) ==
  LET up == s.pred[u]
      x == s.succ[u]
      xn == s.succ[x]
      vp == s.pred[v]
      y == s.succ[v]
      yn == s.succ[y]
      done(t) == IF k1 = k2 THEN Refresh(t, k1) ELSE Refresh(Refresh(t, k1), k2)
  IN  done(
   CASE m = "RelocateSingle" -> Link(Link(Link(s, up, x), v, u), u, y)
     [] m = "RelocateDouble" -> Link(Link(Link(s, up, xn), v, u), x, y)
     [] m = "RelocateDoubleReverse" -> Link(Link(Link(Link(s, up, xn), v, x), x, u), u, y)
     [] m = "SwapOneWithOne" -> Link(Link(Link(Link(s, up, v), v, x), vp, u), u, y)
     [] m = "SwapTwoWithOne" -> Link(Link(Link(Link(s, up, v), v, xn), vp, u), x, y)
     [] m = "SwapTwoWithTwo" -> Link(Link(Link(Link(s, up, v), y, xn), vp, u), x, yn)
     [] m = "TwoOptIntraReverse" -> Link(Link(BackwardReverse(s, v, s.pred[v], x, Null), u, v), x, y)
     [] m = "TwoOptInterReverse" ->
          LET s1 == IF IsDepot(v) THEN s ELSE BackwardReverse(s, v, s.pred[v], Null, EndOf(k1))
              v1 == IF IsDepot(v) THEN EndOf(k1) ELSE v
              s2 == Link(s1, u, v1)
              s3 == IF IsDepot(x) THEN s2 ELSE ForwardReverse(s2, x, s2.succ[x], StartOf(k2))
              x1 == IF IsDepot(x) THEN StartOf(k2) ELSE x
          IN  Link(s3, x1, y)
     [] m = "TwoOptInter" ->
          LET s1 == Link(Link(s, u, y), v, x)
              s2 == ReplaceEnd(s1, v, s1.succ[v], EndOf(k2))
          IN  ReplaceEnd(s2, u, s2.succ[u], EndOf(k1)))

(***************************************************************************)
(* The predicted change, from the totals kept with routes and customers    *)
(***************************************************************************)
Cost1(dist, over, P) == dist + P * Max2(0, over)
\* kept: <<distance up to the node, load up to it>>
Kept(I, R, k, x) ==
  IF IsDepot(x) THEN IF x < 0 - END THEN <<RouteDist(I, R[k]), Load(I, R[k])>> ELSE <<0, 0>>
  ELSE <<PathTo(I, R[k], PosIn(R[k], x)), LoadTo(I, R[k], PosIn(R[k], x))>>
PosOf(R, k, x) == IF IsDepot(x) THEN (IF x < 0 - END THEN Len(R[k]) + 1 ELSE 0) ELSE PosIn(R[k], x)

Predicted(I, m, s, R, u, v, k1, k2, P) ==
  LET d(a, b) == D(I, Number(a), Number(b))
      dem(a) == Q(I, Number(a))
      up == s.pred[u]
      x == s.succ[u]
      xn == s.succ[x]
      vp == s.pred[v]
      y == s.succ[v]
      yn == s.succ[y]
      d1 == RouteDist(I, R[k1])
      d2 == RouteDist(I, R[k2])
      o1 == Load(I, R[k1]) - I.cap
      o2 == Load(I, R[k2]) - I.cap
      old == Cost1(d1, o1, P) + Cost1(d2, o2, P)
      between(e1, e2, shift) == IF k1 = k2 THEN Cost1(e1, o1, P) + Cost1(e2, o2, P) - old
                                ELSE Cost1(e1, o1 - shift, P) + Cost1(e2, o2 + shift, P) - old
      same(a, b) == Number(a) = Number(b)
  IN
   CASE m = "RelocateSingle" ->
          IF same(y, u) THEN 0
          ELSE between(d1 - d(up, u) - d(u, x) + d(up, x), d2 - d(v, y) + d(v, u) + d(u, y), dem(u))
     [] m = "RelocateDouble" ->
          IF IsDepot(x) \/ same(u, y) \/ same(v, x) THEN 0
          ELSE between(d1 - d(up, u) - d(u, x) - d(x, xn) + d(up, xn),
                       d2 - d(v, y) + d(v, u) + d(u, x) + d(x, y), dem(u) + dem(x))
     [] m = "RelocateDoubleReverse" ->
          IF IsDepot(x) \/ same(u, y) \/ same(v, x) THEN 0
          ELSE between(d1 - d(up, u) - d(u, x) - d(x, xn) + d(up, xn),
                       d2 - d(v, y) + d(v, x) + d(x, u) + d(u, y), dem(u) + dem(x))
     [] m = "SwapOneWithOne" ->
          IF same(u, y) \/ same(u, vp) THEN 0
          ELSE between(d1 - d(up, u) - d(u, x) + d(up, v) + d(v, x),
                       d2 - d(vp, v) - d(v, y) + d(vp, u) + d(u, y), dem(u) - dem(v))
     [] m = "SwapTwoWithOne" ->
          IF IsDepot(x) \/ same(u, vp) \/ same(x, vp) \/ same(u, y) THEN 0
          ELSE between(d1 - d(up, u) - d(u, x) - d(x, xn) + d(up, v) + d(v, xn),
                       d2 - d(vp, v) - d(v, y) + d(vp, u) + d(u, x) + d(x, y), dem(u) + dem(x) - dem(v))
     [] m = "SwapTwoWithTwo" ->
          IF IsDepot(x) \/ IsDepot(y) \/ same(u, y) \/ same(v, x) \/ same(y, up) \/ same(v, xn) THEN 0
          ELSE between(d1 - d(up, u) - d(u, x) - d(x, xn) + d(up, v) + d(v, y) + d(y, xn),
                       d2 - d(vp, v) - d(v, y) - d(y, yn) + d(vp, u) + d(u, x) + d(x, yn),
                       dem(u) + dem(x) - dem(v) - dem(y))
     [] m = "TwoOptIntraReverse" ->
          IF k1 # k2 \/ PosOf(R, k1, u) > PosOf(R, k2, v) \/ same(x, v) THEN 0
          ELSE 0 - d(u, x) - d(v, y) + d(u, v) + d(x, y)
     [] m = "TwoOptInterReverse" ->
          IF k1 = k2 THEN 0
          ELSE LET ku == Kept(I, R, k1, u)
                   kx == Kept(I, R, k1, x)
                   kv == Kept(I, R, k2, v)
                   ky == Kept(I, R, k2, y)
                   l1 == Load(I, R[k1])
                   l2 == Load(I, R[k2])
               IN  Cost1(ku[1] + kv[1] + d(u, v), ku[2] + kv[2] - I.cap, P)
                   + Cost1(d1 - kx[1] + d2 - ky[1] + d(x, y), l1 - ku[2] + l2 - kv[2] - I.cap, P) - old
     [] m = "TwoOptInter" ->
          IF k1 = k2 THEN 0
          ELSE LET ku == Kept(I, R, k1, u)
                   kx == Kept(I, R, k1, x)
                   kv == Kept(I, R, k2, v)
                   ky == Kept(I, R, k2, y)
                   l1 == Load(I, R[k1])
                   l2 == Load(I, R[k2])
               IN  Cost1(ku[1] + d2 - ky[1] + d(u, y), ku[2] + l2 - kv[2] - I.cap, P)
                   + Cost1(kv[1] + d1 - kx[1] + d(v, x), kv[2] + l1 - ku[2] - I.cap, P) - old
=============================================================================
