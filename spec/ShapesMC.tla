------------------------------ MODULE ShapesMC ------------------------------
(* The decisions above, for all segments and circles of a small lattice, against   *)
(* other ways to decide them.                                                       *)
EXTENDS Shapes, FiniteSets
CONSTANT N
VARIABLES b, z, r
vars == <<b, z, r>>
P == ((0 - N) .. N) \X ((0 - N) .. N)
Init == b \in P \ {<<0, 0>>} /\ z \in P /\ r \in 1 .. N + 1
Next == UNCHANGED vars
a == <<0, 0>>
A == LA(a, b)
B == LB(a, b, z)
C == LC(a, z, r)
(* signs of the quadratic at the ends and at its least value *)
F0 == C
F1 == A + B + C
Count ==
  LET D == Disc(A, B, C) inside == 0 - B > 0 /\ 0 - B < 2 * A IN
  IF F0 * F1 < 0 THEN 1
  ELSE IF F0 = 0 /\ F1 = 0 THEN 2
  ELSE IF F0 = 0 THEN (IF D = 0 THEN 1 ELSE IF F1 > 0 /\ inside THEN 2 ELSE 1)
  ELSE IF F1 = 0 THEN (IF D = 0 THEN 1 ELSE IF F0 > 0 /\ inside THEN 2 ELSE 1)
  ELSE IF F0 < 0 THEN 0
  ELSE IF inside /\ D > 0 THEN 2 ELSE IF inside /\ D = 0 THEN 1 ELSE 0
RootsRight == Cardinality(Roots(A, B, C)) = Count
(* common points of two circles are symmetric, and found on the lattice where they are there *)
Lattice(r2) == {p \in ((0 - 3 * N) .. 3 * N) \X ((0 - 3 * N) .. 3 * N) : Sq(p) = r * r /\ Sq(Minus(p, b)) = r2 * r2}
CommonRight == z = a => \A r2 \in 1 .. N + 1 : Common(a, r, b, r2) = Common(b, r2, a, r) /\ Common(a, r, b, r2) >= Cardinality(Lattice(r2))
(* a segment met by another, and points of it *)
MeetRight == \A q \in {z, <<z[1] + 1, z[2]>>, <<0, z[2]>>} : (OnSegment(a, b, q) /\ ~Parallel(a, b, q, <<q[1] - b[2], q[2] + b[1]>>)) => Meet(a, b, q, <<q[1] - b[2], q[2] + b[1]>>) >= 1
MeetSym == ~Parallel(a, b, z, <<z[1] + r, z[2] - 1>>) => Meet(a, b, z, <<z[1] + r, z[2] - 1>>) = Meet(z, <<z[1] + r, z[2] - 1>>, b, a)
=============================================================================
