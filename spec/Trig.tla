-------------------------------- MODULE Trig --------------------------------
(* Trigonometry in integers by coordinate rotation (CORDIC), because the model    *)
(* checker has integers of 32 bits only.  Angles are in units of 10^-7 radians,   *)
(* sines and cosines in units of 2^-28.  TrigMC checks the accuracy: 10^-7.       *)
EXTENDS Integers, Sequences, TLC
LOCAL SE == INSTANCE SequencesExt
Fold(op(_, _), base, s) == SE!FoldLeft(op, base, s)
PI == 31415927
HALF == 15707963
TURN == 62831853
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN 0 - 1 ELSE 0
ONE == 268435456
KONE == 163008219
TWO == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864>>
ATAN == <<78539816, 46364761, 24497866, 12435499, 6241881, 3123983, 1562373, 781234, 390623, 195312, 97656, 48828, 24414, 12207, 6104, 3052, 1526, 763, 381, 191, 95, 48, 24, 12, 6, 3, 1>>
STEPS == [n \in 1 .. 27 |-> n]
(* into [0, 2 pi) and (-pi, pi] *)
Norm(a) == a % TURN
Wrap(a) == LET b == a % TURN IN IF b > PI THEN b - TURN ELSE b
(* distance of two angles on the circle *)
Apart(a, b) == Abs(Wrap(a - b))
RotStep(v, n) == IF v[3] >= 0 THEN <<v[1] - (v[2] \div TWO[n]), v[2] + (v[1] \div TWO[n]), v[3] - ATAN[n]>>
                 ELSE <<v[1] + (v[2] \div TWO[n]), v[2] - (v[1] \div TWO[n]), v[3] + ATAN[n]>>
Rot(a) == SE!FoldLeft(RotStep, <<KONE, 0, 10 * a>>, STEPS)      \* a in [-pi/2, pi/2]
(* <<cosine, sine>> *)
CosSin(a) ==
  LET b == Wrap(a) IN
  IF b = 0 THEN <<ONE, 0>>
  ELSE IF Abs(b) <= HALF THEN LET v == Rot(b) IN <<v[1], v[2]>>
  ELSE LET v == Rot(b - Sgn(b) * PI) IN <<0 - v[1], 0 - v[2]>>
VecStep(v, n) == IF v[2] < 0 THEN <<v[1] - (v[2] \div TWO[n]), v[2] + (v[1] \div TWO[n]), v[3] - ATAN[n]>>
                 ELSE <<v[1] + (v[2] \div TWO[n]), v[2] - (v[1] \div TWO[n]), v[3] + ATAN[n]>>
RECURSIVE Up(_, _)
Up(m, s) == IF m * s >= ONE THEN s ELSE Up(m, 2 * s)
Vec(x, y) == SE!FoldLeft(VecStep, <<x, y, 0>>, STEPS)            \* x > 0
(* angle of the vector, |x|, |y| < 2^26; the null vector has angle 0 *)
Atan2(y, x) ==
  IF y = 0 THEN (IF x < 0 THEN PI ELSE 0)
  ELSE IF x = 0 THEN Sgn(y) * HALF
  ELSE LET s == Up(Max(Abs(x), Abs(y)), 1)
           a == Vec(Abs(x) * s, Abs(y) * s)[3] \div 10
       IN Sgn(y) * (IF x > 0 THEN a ELSE PI - a)
(* a * f / 2^28, |a| < 2^26, |f| <= 2^28 *)
MulFpos(a, f) == LET ah == a \div 8192 al == a % 8192 fh == f \div 16384 fl == f % 16384 IN
                 (ah * fh) \div 2 + (((ah * fh) % 2) * 8192 + ((ah * fl) \div 2) + al * fh + ((al * fl) \div 16384) + 8192) \div 16384
MulF(a, f) == Sgn(a) * Sgn(f) * MulFpos(Abs(a), Abs(f))
(* length of a vector, |x|, |y| < 2^26 *)
Hypot(x, y) ==
  IF x = 0 THEN Abs(y) ELSE IF y = 0 THEN Abs(x)
  ELSE LET s == Up(Max(Abs(x), Abs(y)), 1) v == Vec(Abs(x) * s, Abs(y) * s)[1] IN
       IF s >= 32 THEN (MulFpos(v \div 32, KONE) + s \div 64) \div (s \div 32) ELSE MulFpos(v \div 32, KONE) * (32 \div s)
(* length of arc in units of the radius' unit: r * |a| / 10^7, r < 2^26 and the result < 2^26 *)
ArcLen(r, a) == LET b == Abs(a) hi == b \div 10000 lo == b % 10000 rh == r \div 1000 rl == r % 1000 IN
                rh * hi + ((rh * lo) \div 10 + rl * hi + ((rl * lo) \div 10000)) \div 1000
(* point at distance d from <<x, y>> in direction a *)
Polar(x, y, d, a) == LET cs == CosSin(a) IN <<x + MulF(d, cs[1]), y + MulF(d, cs[2])>>
=============================================================================
