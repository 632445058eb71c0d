------------------------------ MODULE ArcTrace ------------------------------
(* Recorded edits of arcs and everything that can be seen of them after each.      *)
(* Lengths in 10^-5, angles in 10^-7 rad.                                          *)
EXTENDS Arc, Trig, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, A, G
vars == <<c, i, A, G>>
Op == Cases[c].ops[i + 1]
More == i < Len(Cases[c].ops)
None == [s |-> 0, n |-> 0, d |-> 1]
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0 /\ A = None /\ G = <<0, 0, 0>>
E == 10
Near(a, b, e) == Abs(a - b) <= e
(* arc X of circle g is what was seen *)
Seen(X, g) ==
  LET v == Op.v p == TLCEval(Polar(g[1], g[2], g[3], X.s)) q == TLCEval(Polar(g[1], g[2], g[3], EndOf(X))) IN
  /\ v.d = X.d
  /\ v.s >= 0 /\ v.s <= TURN /\ Apart(v.s, X.s) <= E
  /\ v.n >= 0 /\ v.n <= TURN /\ Near(v.n, X.n, E)
  /\ v.e >= 0 /\ v.e <= TURN /\ Apart(v.e, EndOf(X)) <= E
  /\ Near(v.len, ArcLen(g[3], X.n), 5 + g[3] \div 500000)
  /\ Near(v.x, g[1], 2) /\ Near(v.y, g[2], 2) /\ Near(v.r, g[3], 1)
  /\ Near(v.sp[1], p[1], 5) /\ Near(v.sp[2], p[2], 5) /\ Near(v.ep[1], q[1], 5) /\ Near(v.ep[2], q[2], 5)
(* is the point at angle q.a and distance q.rad from the centre on arc X?  2 yes, 0 no, 1 too close to tell *)
Hit(X, g, q) ==
  LET off == Abs(q.rad - g[3])
      p == Past(X, q.a)
      over == Min(Max(p - X.n, 0), TURN - p)     \* beyond the nearer end
      reach == 1 + (q.tol * 10000) \div (g[3] \div 1000) IN
  IF off > q.tol + 2 + q.tol \div 50 \/ over > reach + reach \div 5 + 10 THEN 0
  ELSE IF off * 10 <= q.tol /\ over <= 2 THEN 2
  ELSE IF off < q.tol - 2 /\ p > 5 /\ p < X.n - 5 THEN 2 ELSE 1
Asked(X, g) == \A k \in DOMAIN Op.q : LET h == Hit(X, g, Op.q[k]) IN h = 1 \/ (Op.q[k].ret <=> h = 2)
Post(S, g) == \E X \in S : Seen(X, g) /\ Asked([X EXCEPT !.s = Op.v.s, !.n = Op.v.n], g)
Keep(g) == A' = [s |-> Op.v.s, n |-> Op.v.n, d |-> Op.v.d] /\ G' = g /\ i' = i + 1 /\ UNCHANGED c
Do(name, S, g) == More /\ Op.o = name /\ Post(S, g) = TRUE /\ Keep(g)
(* circles that leave a pose, or arrive at it, with its heading *)
Foot(d) == 0 - d * HALF
Centre(d) == Polar(Op.p[1], Op.p[2], Op.r, Op.p[3] + Foot(d) + PI)
Next ==
  \/ Do("new", {New(IF Op.d > 0 THEN 1 ELSE 0 - 1)}, <<Op.x, Op.y, Abs(Op.r)>>)
  \/ Do("from", WithAll(Op.p[3] + Foot(Op.d), Op.a, Op.d), LET z == Centre(Op.d) IN <<z[1], z[2], Op.r>>)
  \/ Do("to", WithAll(Op.p[3] + Foot(Op.d) - Op.d * Op.a, Op.a, Op.d), LET z == Centre(Op.d) IN <<z[1], z[2], Op.r>>)
  \/ Do("start", WithStart(A, Op.a), G)
  \/ Do("end", WithEnd(A, Op.a), G)
  \/ Do("turn", WithTurn(A, Op.a), G)
  \/ Do("all", WithAll(Op.a, Op.n, Op.d), G)
  \* by a point: only if it is on the circle
  \/ Do("selstart", IF Op.ret THEN WithStart(A, Op.a) ELSE {A}, G) /\ (Abs(Abs(Op.rad - G[3]) - Op.tol) > 2 => (Op.ret <=> Abs(Op.rad - G[3]) < Op.tol))
  \/ Do("selend", IF Op.ret THEN WithEnd(A, Op.a) ELSE {A}, G) /\ (Abs(Abs(Op.rad - G[3]) - Op.tol) > 2 => (Op.ret <=> Abs(Op.rad - G[3]) < Op.tol))
  \/ i = Len(Cases[c].ops) /\ UNCHANGED vars
=============================================================================
