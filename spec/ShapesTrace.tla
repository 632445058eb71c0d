---------------------------- MODULE ShapesTrace ----------------------------
(* Recorded answers about lines, circles and arcs whose coordinates are whole      *)
(* multiples of a unit u (given in 10^-5).  Answers are in 10^-5, angles 10^-7.    *)
EXTENDS Shapes, Trig, FiniteSets, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
Op == Cases[c].ops[i + 1]
u == Cases[c].u
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0
E == 3
Scale(p) == <<p[1] * u, p[2] * u>>
Ratio(n, d) == IF d < 0 THEN ((0 - n) \div (0 - d)) * u + ((((0 - n) % (0 - d)) * u) \div (0 - d)) ELSE (n \div d) * u + (((n % d) * u) \div d)
Close(p, q, e) == Abs(p[1] - q[1]) <= e /\ Abs(p[2] - q[2]) <= e
Dist(p, q) == Hypot(p[1] - q[1], p[2] - q[2])
(* the point a + (b - a) n / d *)
Along(a, b, n, d) == <<Ratio(a[1] * d + (b[1] - a[1]) * n, d), Ratio(a[2] * d + (b[2] - a[2]) * n, d)>>
OnCircle(p, z, r) == Abs(Dist(p, Scale(z)) - r * u) <= E
OnLineSegment(p, a, b) ==
  LET v == Minus(b, a) w == Minus(p, Scale(a)) m == E * (Abs(v[1]) + Abs(v[2])) IN
  Abs(Cross(v, w)) <= m /\ Dot(v, w) >= 0 - m /\ Dot(v, w) <= Sq(v) * u + m
Distinct(ps) == \A m, n \in DOMAIN ps : m < n => Dist(ps[m], ps[n]) > 100

LineLine ==
  IF Parallel(Op.a, Op.b, Op.e, Op.f) THEN (Side(Op.a, Op.b, Op.e) # 0 => ~Op.ret)
  ELSE /\ Meet(Op.a, Op.b, Op.e, Op.f) = 2 => Op.ret
       /\ Meet(Op.a, Op.b, Op.e, Op.f) = 0 => ~Op.ret
       /\ Op.ret => Close(Op.p, Along(Op.a, Op.b, Cross(Minus(Op.e, Op.a), Minus(Op.f, Op.e)), Cross(Minus(Op.b, Op.a), Minus(Op.f, Op.e))), E)
LineCircle ==
  /\ Len(Op.p) = Cardinality(Roots(LA(Op.a, Op.b), LB(Op.a, Op.b, Op.z), LC(Op.a, Op.z, Op.r)))
  /\ \A k \in DOMAIN Op.p : OnCircle(Op.p[k], Op.z, Op.r) /\ OnLineSegment(Op.p[k], Op.a, Op.b)
  /\ Distinct(Op.p)
Both(ps) ==
  LET n == Common(Op.z, Op.r, Op.y, Op.q) IN
  /\ (n >= 0 => Len(ps) = n)
  /\ \A k \in DOMAIN ps : OnCircle(ps[k], Op.z, Op.r) /\ OnCircle(ps[k], Op.y, Op.q)
  /\ Distinct(ps)
CircleCircle == Both(Op.p)
(* angle t on the arc from s over n in sense d?  2 yes, 0 no, 1 within a band of the ends *)
OnArc(t, s, n, d, band) ==
  LET past == Norm(d * (t - s)) over == Min(Max(past - n, 0), TURN - past) IN
  IF over > band THEN 0 ELSE IF past > band /\ past < n - band THEN 2 ELSE IF n >= TURN - 2 THEN 2 ELSE 1
Band(r) == (4 * 10000000) \div (r * u) + 50
AngleOf(p, z) == Atan2(p[2] - z[2] * u, p[1] - z[1] * u)
ArcArc ==
  /\ Both(Op.full)
  /\ Distinct(Op.p)
  /\ \A k \in DOMAIN Op.p : \E m \in DOMAIN Op.full : Close(Op.p[k], Op.full[m], 1)
  /\ \A m \in DOMAIN Op.full :
       LET q == TLCEval(Op.full[m])
           h1 == TLCEval(OnArc(AngleOf(q, Op.z), Op.s, Op.n, Op.d, Band(Op.r)))
           h2 == TLCEval(OnArc(AngleOf(q, Op.y), Op.s2, Op.n2, Op.d2, Band(Op.q)))
           in == \E k \in DOMAIN Op.p : Close(Op.p[k], q, 1) IN
       /\ (h1 = 0 \/ h2 = 0 => ~in)
       /\ (h1 = 2 /\ h2 = 2 => in)
PointLine ==
  LET a == Op.a b == Op.b p == Op.x P == Scale(p)
      cr == Cross(Minus(b, a), Minus(p, a)) dt == Dot(Minus(b, a), Minus(p, a)) sq == Sq(Minus(b, a))
      f == TLCEval(Along(a, b, dt, sq))
      off == TLCEval(Dist(P, f)) da == TLCEval(Dist(P, Scale(a))) db == TLCEval(Dist(P, Scale(b)))
      on == OnSegment(a, b, p) rel == IF Abs(cr) <= Op.k THEN 0 ELSE Sign(cr) IN
  /\ Op.rel = rel
  /\ Op.rel0 = Sign(cr)
  /\ Abs(Op.sd - Sign(cr) * off) <= 5
  /\ Close(Op.foot, f, E) /\ Close(Op.proj, f, E)
  /\ (Op.on <=> on)
  /\ Abs(Op.dist - (IF FootIn(a, b, p) THEN off ELSE Min(da, db))) <= 5
  /\ Close(Op.near, IF FootIn(a, b, p) THEN f ELSE IF da < db THEN Scale(a) ELSE Scale(b), E)
  /\ (Op.sel <=> rel = 0)
  /\ LET atend == Op.which = 1 IN
     /\ Close(Op.ns, IF Op.sel /\ ~atend THEN P ELSE Scale(a), 1)
     /\ Close(Op.ne, IF Op.sel /\ atend THEN P ELSE Scale(b), 1)
(* a line without length *)
PointPoint == LET d == Dist(Scale(Op.x), Scale(Op.a)) IN Abs(Op.dist - d) <= E /\ Close(Op.near, Scale(Op.a), 1)
(* parallel at distance w (in 10^-5), to the left if positive *)
Shifted ==
  LET s == Minus(Op.ps, Scale(Op.a)) e == Minus(Op.pe, Scale(Op.b)) v == Minus(Op.b, Op.a) m == E * (Abs(v[1]) + Abs(v[2])) IN
  /\ Close(s, e, 2)
  /\ Abs(Dot(v, s)) <= m
  /\ Abs(Hypot(s[1], s[2]) - Abs(Op.w)) <= E
  /\ Op.w # 0 => Sgn(Cross(v, s)) = Sgn(Op.w)
FromPose ==
  LET t == Polar(Op.a[1] * u, Op.a[2] * u, IF Op.d > 0 THEN Abs(Op.w) ELSE 0 - Abs(Op.w), Op.t) IN
  IF Op.d > 0 THEN Close(Op.ps, Scale(Op.a), 1) /\ Close(Op.pe, t, E) ELSE Close(Op.pe, Scale(Op.a), 1) /\ Close(Op.ps, t, E)
PointCircle ==
  LET P == Scale(Op.x) Z == Scale(Op.z) R == Op.r * u
      S == TLCEval(Polar(Z[1], Z[2], R, Op.s)) T == TLCEval(Polar(Z[1], Z[2], R, Op.s + Op.d * Op.n))
      ds == TLCEval(Dist(P, S)) dt == TLCEval(Dist(P, T)) dc == TLCEval(Dist(P, Z))
      h == TLCEval(IF Op.x = Op.z THEN 0 ELSE OnArc(AngleOf(P, Op.z), Op.s, Op.n, Op.d, Band(Op.r)))
      inner == /\ Abs(Op.dist - Abs(dc - R)) <= 5
               /\ Abs(Dist(Op.near, Z) - R) <= 5
      outer == /\ Abs(Op.dist - Min(ds, dt)) <= 8
               /\ Close(Op.near, S, 8) \/ Close(Op.near, T, 8) IN
  /\ Abs(Dist(P, Op.near) - Op.dist) <= 8
  /\ IF h = 2 THEN inner ELSE IF h = 0 THEN outer ELSE inner \/ outer
Ok == CASE Op.o = "ll" -> LineLine [] Op.o = "lc" -> LineCircle [] Op.o = "cc" -> CircleCircle [] Op.o = "aa" -> ArcArc
        [] Op.o = "pl" -> PointLine [] Op.o = "pp" -> PointPoint [] Op.o = "par" -> Shifted [] Op.o = "ray" -> FromPose [] Op.o = "pc" -> PointCircle
Next == \/ i < Len(Cases[c].ops) /\ Ok = TRUE /\ i' = i + 1 /\ UNCHANGED c
        \/ i = Len(Cases[c].ops) /\ UNCHANGED vars
=============================================================================
