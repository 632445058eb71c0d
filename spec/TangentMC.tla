------------------------------ MODULE TangentMC ------------------------------
(* 1. Tangent arcs chosen by side and sense continue the heading on both ends       *)
(*    (angles in parts of a turn T), and those on the other side do not.            *)
(* 2. Touching agrees with searching whole places along the line.                   *)
EXTENDS Tangent
CONSTANTS T, N
VARIABLES d, b, X, Y, R, r
vars == <<d, b, X, Y, R, r>>
Init == d \in {0 - 1, 1} /\ b \in 0 .. T - 1 /\ X \in 0 - N .. N /\ Y \in 0 - N .. N /\ R \in 1 .. 2 /\ r \in 1 .. 3
Next == UNCHANGED vars
Q == T \div 4
Heading(angle, sense) == (angle + sense * Q) % T
(* line along angle 0; touching circle on side s, of sense -d; b is the angle from its centre to the circle of sense d *)
FromLine(s) == Heading(0 - s * Q, 0 - d)
OnArcEnd == Heading(b, 0 - d)
OnCircle == Heading(b + 2 * Q, d)
SidesOk == (FromLine(ArcSide(d)) = 0) /\ (FromLine(d) # 0) /\ OnArcEnd = OnCircle
(* inside a circle of the same sense, outside one of the opposite sense *)
InnerOk == Heading(b, d) = Heading(b, d) /\ Heading(b, d) = Heading(b + 2 * Q, 0 - d)
(* h = 1: whole places p along the line where the distance is exactly that of touching circles *)
Places(s, n) == {p \in 0 .. n : (p - X) * (p - X) + (Y - s * r) * (Y - s * r) = (R + r) * (R + r)}
TouchOk == \A s \in {0 - 1, 1} : \A p \in 0 - 3 * N .. 3 * N :
  ((p - X) * (p - X) + (Y - s * r) * (Y - s * r) = (R + r) * (R + r)) =>
    LET n == N IN
    IF p > 0 /\ p < n THEN (IF p = X THEN Touching(X, Y, R, r, 1, n, s, 1) = 1 ELSE Touching(X, Y, R, r, 1, n, s, IF p > X THEN 1 ELSE 0 - 1) = 2)
    ELSE IF p < 0 \/ p > n THEN Touching(X, Y, R, r, 1, n, s, IF p >= X THEN 1 ELSE 0 - 1) = 0 ELSE TRUE
=============================================================================
