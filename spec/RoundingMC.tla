----------------------------- MODULE RoundingMC -----------------------------
(* Design model: Round is the nearest integer on every number k/D, away from zero   *)
(* at ties, odd.                                                                     *)
EXTENDS Rounding
CONSTANTS D, Lim
VARIABLE k
Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a < 0 THEN -1 ELSE 1
R(m) == LET a == Abs(m) f == a % D IN Round(Sgn(m), a \div D, IF 2 * f < D THEN -1 ELSE IF 2 * f = D THEN 0 ELSE 1)
Init == k = -Lim
Next == k < Lim /\ k' = k + 1
Nearest == \A z \in (k \div D) - 2 .. (k \div D) + 2 : Abs(k - D * R(k)) <= Abs(k - D * z)
AwayFromZero == 2 * Abs(k - D * R(k)) = D => D * Abs(R(k)) > Abs(k)
Odd == R(-k) = -R(k)
=============================================================================
