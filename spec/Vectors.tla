------------------------------ MODULE Vectors ------------------------------
(* Points of the plane as whole vectors. *)
EXTENDS Integers
Plus(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Diff(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Neg(p) == <<0 - p[1], 0 - p[2]>>
Times(p, f) == <<p[1] * f, p[2] * f>>
DotP(p, q) == p[1] * q[1] + p[2] * q[2]
Ortho(p) == <<p[2], 0 - p[1]>>          \* a quarter turn clockwise
Within(p, q, e) == DotP(Diff(p, q), Diff(p, q)) <= e * e
Less(p, q, e) == DotP(Diff(p, q), Diff(p, q)) < e * e
=============================================================================
