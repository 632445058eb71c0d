---------------------------- MODULE VectorTrace ----------------------------
(* Recorded operations on points and poses.  Operands in 1/16, exact results in     *)
(* 1/128, inexact ones in 10^-5, angles in 10^-7 rad.                                *)
EXTENDS Vectors, Trig, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
Op == Cases[c].ops[i + 1]
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0
p == Op.p
q == Op.q
Near(a, b, e) == Abs(a - b) <= e
Fine(v) == Times(v, 6250)                 \* 1/16 in 10^-5
Close(a, b, e) == Near(a[1], b[1], e) /\ Near(a[2], b[2], e)
Eight(v) == Times(v, 8)
Size(v) == TLCEval(Hypot(6250 * v[1], 6250 * v[2]))
Zero == <<0, 0>>
(* size s (10^-5) in the direction of v *)
Sized(v, s) == LET cs == CosSin(Atan2(v[2] * 6250, v[1] * 6250)) IN <<MulF(s, cs[1]), MulF(s, cs[2])>>
Turned(v, a) == LET cs == TLCEval(CosSin(a)) w == Fine(v) IN <<MulF(w[1], cs[1]) - MulF(w[2], cs[2]), MulF(w[1], cs[2]) + MulF(w[2], cs[1])>>
Points ==
  /\ Op.sum = Eight(Plus(p, q)) /\ Op.diff = Eight(Diff(p, q)) /\ Op.neg = Eight(Neg(p)) /\ Op.ortho = Eight(Ortho(p))
  /\ Op.mul = Times(p, Op.f) /\ Op.muleq = Op.mul /\ Op.mulself = Op.mul          \* the factor is in 1/8
  /\ Op.div = (IF Op.e >= 0 THEN Times(p, 8 * Op.e) ELSE <<(8 * p[1]) \div (0 - Op.e), (8 * p[2]) \div (0 - Op.e)>>)     \* divided by 1/e or -e
  /\ (Op.eq <=> p = q) /\ (Op.ne <=> p # q)
  /\ Op.pose = Eight(p)
  /\ Near(Op.len, Size(p), 2) /\ Near(Op.org, Size(p), 2)
  /\ (p # Zero => /\ Apart(Op.ang, Atan2(p[2] * 6250, p[1] * 6250)) <= 10
                  /\ Close(Op.unit, Sized(p, 100000), 3) /\ Close(Op.sized, Sized(p, Op.s), 4))
  /\ Close(Op.rot, Turned(p, Op.a), 5)
  /\ Close(Op.polar, Polar(0, 0, Op.s, Op.a), 4)
Poses ==
  /\ Op.new = <<0, 0, 0>>
  /\ Op.sum = Eight(Plus(p, q)) /\ Op.diff = Eight(Diff(p, q)) /\ Op.mul = Times(p, Op.f) /\ Op.mul2 = Op.mul
  /\ Op.div = (IF Op.e >= 0 THEN Times(p, 8 * Op.e) ELSE <<(8 * p[1]) \div (0 - Op.e), (8 * p[2]) \div (0 - Op.e)>>)
  /\ Op.dot = DotP(p, q)
  /\ Near(Op.dist, Size(Diff(p, q)), 2) /\ Op.dist = Op.tsid /\ Near(Op.org, Size(p), 2) /\ (Op.dist = 0 <=> p = q)
  \* heading of both, tolerances e (in 1/16) and t
  /\ LET h == TLCEval(Apart(Op.ph, Op.qh)) IN
     IF Within(p, q, Op.eps) /\ (h < Op.t - 5 \/ Op.ph = Op.qh) THEN Op.same /\ Op.emas
     ELSE IF ~Within(p, q, Op.eps) \/ h > Op.t + 5 THEN ~Op.same /\ ~Op.emas ELSE TRUE
PathPoses ==
  LET h == TLCEval(Apart(Op.ph, Op.qh)) IN
  /\ Op.new = <<0, 0, 0, 0>> /\ Op.set = <<8 * p[1], 8 * p[2]>> /\ Near(Op.seth, Op.ph, 1)
  /\ (Less(p, q, Op.eps) <=> Op.near)
  /\ IF Less(p, q, Op.eps) /\ (h < Op.t - 5 \/ (Op.ph = Op.qh /\ Op.t > 0)) THEN Op.same /\ Op.emas
     ELSE IF ~Less(p, q, Op.eps) \/ h > Op.t + 5 THEN ~Op.same /\ ~Op.emas ELSE TRUE
  \* with the tolerances given by default, 10^-5 and 0.01 degrees
  /\ IF p = q /\ h < 1700 THEN Op.dflt ELSE IF p # q \/ h > 1800 THEN ~Op.dflt ELSE TRUE
Appended == Op.res = Op.a \o Op.b /\ Op.rest = Op.b
Ok == CASE Op.o = "point" -> Points [] Op.o = "pose" -> Poses [] Op.o = "path" -> PathPoses [] Op.o = "append" -> Appended
Next == \/ i < Len(Cases[c].ops) /\ Ok = TRUE /\ i' = i + 1 /\ UNCHANGED c
        \/ i = Len(Cases[c].ops) /\ UNCHANGED vars
=============================================================================
