------------------------------- MODULE Tangent -------------------------------
(* Circles of a radius that touch a line and a circle, or two circles from outside *)
(* and inside, decided exactly in the frame of a line with whole coordinates:      *)
(* X along and Y across the line, in parts 1/h of the unit.                        *)
EXTENDS Integers
LOCAL GE(x, w2, g) == IF g > 0 THEN x >= 0 \/ w2 >= x * x ELSE x >= 0 /\ x * x >= w2      \* x + g sqrt(w2) >= 0
LOCAL GT(x, w2, g) == IF g > 0 THEN x > 0 \/ w2 > x * x ELSE x > 0 /\ x * x > w2          \* x + g sqrt(w2) > 0
(* square of half the chord of the circle of radius A around <<X, Y>> at height o *)
Half2(Y, A, o) == A * A - (Y - o) * (Y - o)
(* is X + g sqrt(w2) within [0, n]?  2 yes, 1 at an end, 0 no *)
Within(X, w2, g, n) == IF GT(X, w2, g) /\ GT(n - X, w2, 0 - g) THEN 2 ELSE IF GE(X, w2, g) /\ GE(n - X, w2, 0 - g) THEN 1 ELSE 0
(* the touching circle on side s whose centre is forward (g = 1) or backward (-1) of the foot of the circle:  *)
(* 2 there is one, 0 there is none, 1 too close to tell                                                          *)
Touching(X, Y, R, r, h, n, s, g) ==
  LET w2 == Half2(Y, (R + r) * h, s * r * h) IN IF w2 < 0 THEN 0 ELSE IF w2 = 0 THEN (IF Within(X, 0, g, n) = 0 THEN 0 ELSE 1) ELSE Within(X, w2, g, n)
(* the side a tangent arc of a circle of sense d lies on: it turns the other way *)
ArcSide(d) == 0 - d
=============================================================================
