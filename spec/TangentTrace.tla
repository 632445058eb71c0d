---------------------------- MODULE TangentTrace ----------------------------
(* Recorded tangent circles, arcs and paths.  Lines and circles given have whole   *)
(* coordinates in a unit u (10^-5), the line runs from a along <<v1, v2>> of        *)
(* length h for m times that.  Answers are in 10^-5, angles in 10^-7 rad.          *)
EXTENDS Tangent, Shapes, Trig, FiniteSets, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
Op == Cases[c].ops[i + 1]
u == Cases[c].u
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0
Near(a, b, e) == Abs(a - b) <= e
Scale(p) == <<p[1] * u, p[2] * u>>
Close(p, q, e) == Abs(p[1] - q[1]) <= e /\ Abs(p[2] - q[2]) <= e
Dist(p, q) == Hypot(p[1] - q[1], p[2] - q[2])
AngleFrom(p, z) == Atan2(p[2] - z[2], p[1] - z[1])
E == 5
(* ---- line and circle: Op.a, Op.v, Op.h, Op.m; Op.z, Op.r (radius), Op.d (sense); Op.t (radius of the touching circle) ---- *)
A0 == Scale(Op.a)
X == Dot(Minus(Op.z, Op.a), Op.v)
Y == Cross(Op.v, Minus(Op.z, Op.a))
N == Op.m * Op.h * Op.h
Sides == {0 - 1, 1}
(* which touching circle a centre belongs to *)
Across(q) == Cross(Op.v, Minus(q, A0))
AlongLine(q) == Dot(Op.v, Minus(q, A0))
SideOf(q) == Sgn(Across(q))
ForwardOf(q) == IF AlongLine(q) >= X * u THEN 1 ELSE 0 - 1
Single(s) == Half2(Y, (Op.r + Op.t) * Op.h, s * Op.t * Op.h) = 0
CentreOk(q) ==
  /\ Near(Dist(q, Scale(Op.z)), (Op.r + Op.t) * u, E)
  /\ Near(Abs(Across(q)), Op.t * Op.h * u, E * Op.h)
  /\ AlongLine(q) >= 0 - E * Op.h /\ AlongLine(q) <= N * u + E * Op.h
Centres(qs, sides) ==
  /\ \A k \in DOMAIN qs : CentreOk(qs[k]) /\ SideOf(qs[k]) \in sides /\ (Single(SideOf(qs[k])) \/ Touching(X, Y, Op.r, Op.t, Op.h, N, SideOf(qs[k]), ForwardOf(qs[k])) > 0)
  /\ \A j, k \in DOMAIN qs : j < k /\ SideOf(qs[j]) = SideOf(qs[k]) => ForwardOf(qs[j]) # ForwardOf(qs[k]) \/ Single(SideOf(qs[j]))
  /\ \A s \in sides, g \in Sides : Touching(X, Y, Op.r, Op.t, Op.h, N, s, g) = 2 => \E k \in DOMAIN qs : SideOf(qs[k]) = s /\ ForwardOf(qs[k]) = g
(* a recorded piece: a circle *)
IsCircle(x, r, d) == x.k = "c" /\ Near(x.r, r * u, 1) /\ x.d = d
IsGiven(x, z, r, d) == IsCircle(x, r, d) /\ Close(x.z, Scale(z), 1)
Ends(x) == LET p == Polar(x.z[1], x.z[2], x.r, x.s) q == Polar(x.z[1], x.z[2], x.r, x.s + x.d * x.n) IN Close(x.sp, p, E) /\ Close(x.ep, q, E)
Circles == LET qs == [k \in DOMAIN Op.res |-> Op.res[k].z] IN
  /\ Centres(qs, Sides)
  /\ \A k \in DOMAIN Op.res : IsCircle(Op.res[k], Op.t, 0 - Op.d)
(* touches the line at p, the circle at q *)
TouchesLine(p, x) == Near(Dist(p, x.z), Op.t * u, E) /\ Near(Across(p), 0, E * Op.h)
TouchesCircle(p, x) == Near(Dist(p, x.z), Op.t * u, E) /\ Near(Dist(p, Scale(Op.z)), Op.r * u, E)
ArcGiven(x, toCircle) ==
  /\ IsCircle(x, Op.t, 0 - Op.d) /\ Ends(x)
  /\ IF toCircle THEN TouchesLine(x.sp, x) /\ TouchesCircle(x.ep, x) ELSE TouchesCircle(x.sp, x) /\ TouchesLine(x.ep, x)
Arcs(xs, toCircle) == Centres([k \in DOMAIN xs |-> xs[k].z], {ArcSide(Op.d)}) /\ \A k \in DOMAIN xs : ArcGiven(xs[k], toCircle)
(* ---- paths: pieces meet and go on without a kink ---- *)
LeaveHeading(x) == IF x.k = "l" THEN AngleFrom(x.ep, x.sp) ELSE x.s + x.d * x.n + x.d * HALF
EnterHeading(x) == IF x.k = "l" THEN AngleFrom(x.ep, x.sp) ELSE x.s + x.d * HALF
Short(x) == x.k = "l" /\ Dist(x.sp, x.ep) < 1000
Slack(x) == IF x.k = "l" THEN 100000000 \div Dist(x.sp, x.ep) ELSE 100000000 \div x.r
Smooth(x, y) == Close(x.ep, y.sp, 8) /\ (Short(x) \/ Short(y) \/ Apart(LeaveHeading(x), EnterHeading(y)) <= Slack(x) + Slack(y) + 50)
Joined(P) == \A k \in 1 .. Len(P) - 1 : Smooth(P[k], P[k + 1])
SameArc(x, y) == x.k = y.k /\ Close(x.z, y.z, 2) /\ x.d = y.d /\ Near(x.r, y.r, 1) /\ Apart(x.s, y.s) <= 5 /\ Apart(x.n, y.n) <= 5
Least(x, xs) == \A k \in DOMAIN xs : x.n <= xs[k].n + 5
LinePath ==      \* Op.res: the tangent arcs, Op.path: the path
  /\ Arcs(Op.res, TRUE)
  /\ (Len(Op.path) = 0 <=> Len(Op.res) = 0)
  /\ Len(Op.path) > 0 =>
       /\ Len(Op.path) = 3 /\ Op.path[1].k = "l" /\ Close(Op.path[1].sp, A0, 1)
       /\ \E k \in DOMAIN Op.res : SameArc(Op.path[2], Op.res[k]) /\ Least(Op.res[k], Op.res)
       /\ IsGiven(Op.path[3], Op.z, Op.r, Op.d) /\ Near(Op.path[3].n, TURN, 5)
       /\ Joined(Op.path)
CirclePath ==
  /\ Arcs(Op.res, FALSE)
  /\ (Len(Op.path) = 0 <=> Len(Op.res) = 0)
  /\ Len(Op.path) > 0 =>
       /\ Len(Op.path) = 3 /\ IsGiven(Op.path[1], Op.z, Op.r, Op.d) /\ Apart(Op.path[1].s, Op.s) <= 5 /\ Ends(Op.path[1])
       /\ \E k \in DOMAIN Op.res : SameArc(Op.path[2], Op.res[k]) /\ Least(Op.res[k], Op.res)
       /\ Op.path[3].k = "l" /\ Close(Op.path[3].ep, <<A0[1] + Op.m * Op.v[1] * u, A0[2] + Op.m * Op.v[2] * u>>, 1)
       /\ Joined(Op.path)
(* ---- two circles: small <<z, r, d, s, n>>, large <<y, q, e, s2, n2>>, touching radius t; outside the small, inside the large ---- *)
InnerCentres(qs) ==
  LET n == IF Op.t >= Op.q THEN 0 ELSE Common(Op.z, Op.r + Op.t, Op.y, Op.q - Op.t) IN
  /\ Len(qs) = (IF n < 0 THEN 0 ELSE n)
  /\ \A k \in DOMAIN qs : Near(Dist(qs[k], Scale(Op.z)), (Op.r + Op.t) * u, E) /\ Near(Dist(qs[k], Scale(Op.y)), (Op.q - Op.t) * u, E)
  /\ \A j, k \in DOMAIN qs : j < k => Dist(qs[j], qs[k]) > 100
OnArc(t, s, n, d, band) ==
  LET past == Norm(d * (t - s)) over == Min(Max(past - n, 0), TURN - past) IN
  IF over > band THEN 0 ELSE IF past > band /\ past < n - band THEN 2 ELSE IF n >= TURN - 2 THEN 2 ELSE 1
B1 == (60000000 \div (Op.r * u)) + 100 + (60000000 \div (Op.t * u))
B2 == (60000000 \div ((Op.q - Op.t) * u)) + 100 + (60000000 \div (Op.t * u))
T1(q) == AngleFrom(q, Scale(Op.z))
T2(q) == AngleFrom(q, Scale(Op.y))
(* arc around q: from the small to the large circle, or back *)
Angle(q, fromSmall) == IF fromSmall THEN Norm(Op.e * (T2(q) - T1(q) - PI)) ELSE Norm(Op.e * (T1(q) + PI - T2(q)))
BB == B1 + B2
(* 2: there is such an arc, 1: too close to tell (on the ends of the given arcs, or empty or full) *)
Cand(q, fromSmall) ==
  LET h == Min(OnArc(T1(q), Op.s, Op.n, Op.d, B1), OnArc(T2(q), Op.s2, Op.n2, Op.e, B2)) a == Angle(q, fromSmall) IN
  IF h = 2 /\ (a < BB \/ a > TURN - BB) THEN 1 ELSE h
InnerArc(x, qs, fromSmall) ==
  \E k \in DOMAIN qs : Close(x.z, qs[k], 2) /\ Cand(qs[k], fromSmall) > 0 /\ Apart(x.n, Angle(qs[k], fromSmall)) <= BB
InnerArcOk(x, fromSmall) ==
  LET p == IF fromSmall THEN x.sp ELSE x.ep q == IF fromSmall THEN x.ep ELSE x.sp IN
  /\ IsCircle(x, Op.t, Op.e) /\ Ends(x)
  /\ Near(Dist(p, Scale(Op.z)), Op.r * u, E) /\ Near(Dist(p, x.z), Op.t * u, E)
  /\ Near(Dist(q, Scale(Op.y)), Op.q * u, E) /\ Near(Dist(q, x.z), Op.t * u, E)
InnerCircles == InnerCentres([k \in DOMAIN Op.res |-> Op.res[k].z]) /\ \A k \in DOMAIN Op.res : IsCircle(Op.res[k], Op.t, Op.e)
Sure(qs, f) == {k \in DOMAIN qs : Cand(qs[k], f) = 2}
InnerArcs ==     \* Op.cs: centres of the touching circles
  /\ InnerCentres(Op.cs)
  /\ Len(Op.res) <= 1
  /\ (Op.d = Op.e => Len(Op.res) = 0)
  /\ (Op.d # Op.e /\ Sure(Op.cs, TRUE) # {} => Len(Op.res) = 1)
  /\ Len(Op.res) = 1 => LET x == Op.res[1] IN InnerArcOk(x, TRUE) /\ InnerArc(x, Op.cs, TRUE) /\ \A k \in Sure(Op.cs, TRUE) : x.n <= Angle(Op.cs[k], TRUE) + BB \/ x.n > TURN - BB
InnerPath ==
  LET f == Op.fs IN
  /\ InnerCentres(Op.cs)
  /\ Len(Op.path) \in {0, 3}
  /\ (\E k \in Sure(Op.cs, f) : Angle(Op.cs[k], f) < PI - BB) /\ (\A k \in DOMAIN Op.cs : Cand(Op.cs[k], f) # 1) => Len(Op.path) = 3
  /\ Len(Op.path) = 3 =>
       LET P == Op.path S == IF f THEN P[1] ELSE P[3] L == IF f THEN P[3] ELSE P[1] IN
       /\ IsGiven(S, Op.z, Op.r, Op.d) /\ IsGiven(L, Op.y, Op.q, Op.e) /\ Ends(S) /\ Ends(L)
       /\ InnerArcOk(P[2], f) /\ InnerArc(P[2], Op.cs, f)
       /\ P[2].n <= PI + 5
       /\ \A k \in Sure(Op.cs, f) : P[2].n <= Angle(Op.cs[k], f) + BB
       \* the path starts where its first circle started and ends where its last one ended
       /\ IF f THEN Apart(S.s, Op.s) <= 5 /\ Apart(L.s + L.d * L.n, Op.s2 + Op.e * Op.n2) <= 10 ELSE Apart(L.s, Op.s2) <= 5 /\ Apart(S.s + S.d * S.n, Op.s + Op.d * Op.n) <= 10
       /\ Joined(P)
Ok == CASE Op.o = "circles" -> Circles [] Op.o = "arcsto" -> Arcs(Op.res, TRUE) [] Op.o = "arcsfrom" -> Arcs(Op.res, FALSE)
        [] Op.o = "linepath" -> LinePath [] Op.o = "circlepath" -> CirclePath
        [] Op.o = "inner" -> InnerCircles [] Op.o = "innerarcs" -> InnerArcs [] Op.o = "innerpath" -> InnerPath
        [] Op.o = "nothing" -> Len(Op.path) = 0
Next == \/ i < Len(Cases[c].ops) /\ Ok = TRUE /\ i' = i + 1 /\ UNCHANGED c
        \/ i = Len(Cases[c].ops) /\ UNCHANGED vars
=============================================================================
