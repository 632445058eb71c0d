-------------------------------- MODULE TrigMC ------------------------------
(* The accuracy the other specifications rely on.                                *)
EXTENDS Trig
CONSTANT N
VARIABLES k
Init == k = 0 - N
Next == k < N /\ k' = k + 1
A == k * (TURN \div N) + (k % 7) * 1234
CS == CosSin(A)
Near(a, b, e) == Abs(a - b) <= e
(* the unit vector has length one and the angle asked for; symmetry; addition of a right angle *)
Unit == Near(MulF(CS[1] \div 16, CS[1]) + MulF(CS[2] \div 16, CS[2]), ONE \div 16, 6)
Back == Apart(Atan2(CS[2] \div 16, CS[1] \div 16), A) <= 3
Length == Near(Hypot(CS[1] \div 16, CS[2] \div 16), ONE \div 16, 10)
Quarter == LET q == CosSin(A + HALF) IN Near(q[1], 0 - CS[2], 80) /\ Near(q[2], CS[1], 80)
Twice == LET q == CosSin(2 * A) IN Near(q[1] \div 16, MulF(CS[1] \div 16, CS[1]) - MulF(CS[2] \div 16, CS[2]), 12)
(* known values: Pythagorean triples *)
Triples == {<<3, 4, 5>>, <<5, 12, 13>>, <<8, 15, 17>>, <<20, 21, 29>>, <<7, 24, 25>>, <<9999, 200, 10001>>}
Pyth == \A t \in Triples : \A s \in {1, 13, 1000, 2000} :
          /\ Near(Hypot(s * t[1], s * t[2]), s * t[3], 1 + (s * t[3]) \div 5000000)
          /\ Near(Hypot(0 - s * t[2], s * t[1]), s * t[3], 1 + (s * t[3]) \div 5000000)
Known == /\ Near(Atan2(1, 1), 7853982, 2) /\ Near(Atan2(3, 4), 6435011, 2) /\ Near(Atan2(0 - 5, 12), 0 - 3947911, 2)
         /\ Near(CosSin(10471976)[1], ONE \div 2, 60) /\ Near(CosSin(5235988)[2], ONE \div 2, 60)
         /\ Near(ArcLen(1000000, TURN), 6283185, 1) /\ Near(ArcLen(12345678, 1234567), 1524157, 2)
         /\ MulF(0 - 12345678, ONE) = 0 - 12345678 /\ MulF(12345677, 0 - (ONE \div 2)) \in {0 - 6172838, 0 - 6172839}
Accurate == Unit /\ Back /\ Length /\ Quarter /\ Twice /\ (k = 0 => Pyth /\ Known)
=============================================================================
