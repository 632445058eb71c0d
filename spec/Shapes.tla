------------------------------- MODULE Shapes -------------------------------
(* Lines and circles with whole coordinates, exactly.  A point is <<x, y>>, a      *)
(* segment <<a, b>>, a circle <<centre, radius>>.                                   *)
EXTENDS Integers
Minus(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Dot(p, q) == p[1] * q[1] + p[2] * q[2]
Cross(p, q) == p[1] * q[2] - p[2] * q[1]
Sq(p) == Dot(p, p)
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN 0 - 1 ELSE 0
(* ---- two segments that are not parallel: do they meet? 2 yes, 0 no, 1 at an end only ---- *)
Side(a, b, p) == Sign(Cross(Minus(b, a), Minus(p, a)))
Parallel(a, b, e, f) == Cross(Minus(b, a), Minus(f, e)) = 0
Meet(a, b, e, f) ==
  LET s == Side(a, b, e) * Side(a, b, f) t == Side(e, f, a) * Side(e, f, b) IN
  IF s > 0 \/ t > 0 THEN 0 ELSE IF s < 0 /\ t < 0 THEN 2 ELSE 1
(* ---- segment and circle: A m^2 + B m + C = 0 for the point a + m (b - a) ---- *)
LA(a, b) == Sq(Minus(b, a))
LB(a, b, z) == 2 * Dot(Minus(b, a), Minus(a, z))
LC(a, z, r) == Sq(Minus(a, z)) - r * r
Disc(A, B, C) == B * B - 4 * A * C
(* is the root (-B + s sqrt(D)) / 2A in [0, 1]? *)
AtLeast0(B, D, s) == IF s >= 0 THEN 0 - B >= 0 \/ D >= B * B ELSE 0 - B >= 0 /\ B * B >= D
AtMost1(A, B, D, s) == LET X == 2 * A + B IN IF s >= 0 THEN X >= 0 /\ D <= X * X ELSE X >= 0 \/ X * X <= D
Roots(A, B, C) == LET D == Disc(A, B, C) IN {s \in (IF D < 0 THEN {} ELSE IF D = 0 THEN {0} ELSE {0 - 1, 1}) : AtLeast0(B, D, s) /\ AtMost1(A, B, D, s)}
(* ---- two circles: how many common points; -1 if they are the same ---- *)
Common(z1, r1, z2, r2) ==
  LET d == Sq(Minus(z2, z1)) m == (r1 + r2) * (r1 + r2) n == (r1 - r2) * (r1 - r2) IN
  IF d = 0 THEN (IF r1 = r2 THEN 0 - 1 ELSE 0) ELSE IF d > m \/ d < n THEN 0 ELSE IF d = m \/ d = n THEN 1 ELSE 2
(* ---- point and segment ---- *)
OnSegment(a, b, p) == Cross(Minus(b, a), Minus(p, a)) = 0 /\ Dot(Minus(b, a), Minus(p, a)) >= 0 /\ Dot(Minus(b, a), Minus(p, a)) <= Sq(Minus(b, a))
(* is the foot of p within the segment? *)
FootIn(a, b, p) == LET d == Dot(Minus(b, a), Minus(p, a)) IN d >= 0 /\ d <= Sq(Minus(b, a))
=============================================================================
