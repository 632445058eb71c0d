------------------------------- MODULE Regions -------------------------------
(* Goal regions: what a pass delivers.  Lengths in 10^-5, angles in 10^-7 rad.   *)
EXTENDS Trig
(* number of samples of a pass; a centroid region whose approaches coincide has just one *)
Count(R, n) == IF R.kind = "ring" THEN n ELSE IF Abs(R.a) < 10 \/ n <= 1 THEN 1 ELSE n
(* a * k / n without leaving 32 bits *)
Part(a, k, n) == (a \div n) * k + ((a % n) * k) \div n
(* sample k (from 0) of a pass of n: is this it? *)
RingSample(R, n, k, x, y, th) ==
  LET al == Part(TURN, k, n)
      rad == Abs(R.r)
      dir == IF R.r >= 0 THEN HALF ELSE 0 - HALF
      dx == x - R.cx dy == y - R.cy
  IN /\ Apart(th, al + dir) <= 10
     /\ IF R.w = 0 THEN LET p == Polar(R.cx, R.cy, rad, al) IN Abs(x - p[1]) <= 4 /\ Abs(y - p[2]) <= 4
        ELSE LET d == Hypot(dx, dy) IN
             /\ d >= rad - R.w \div 2 - 3 /\ d <= rad + R.w \div 2 + 4
             /\ (d > 20000 => Apart(Atan2(dy, dx), al) <= 3000)
CentSample(R, n, k, x, y, th, gain) ==
  LET m == Count(R, n)
      a == Abs(R.a)
      direct == Atan2(R.cy - R.sy, R.cx - R.sx)
      want == IF m = 1 THEN direct ELSE direct - a \div 2 + Part(a, k, m - 1)
      p == Polar(R.cx, R.cy, 0 - R.r, want)
      (* 1 for the direct approach up to 2 for the outermost *)
      g == IF m = 1 THEN 1000000 ELSE 1000000 + Abs(Part(2000000, k, m - 1) - 1000000)
  IN Apart(th, want) <= 40 /\ Abs(x - p[1]) <= 15 /\ Abs(y - p[2]) <= 15 /\ Abs(gain - g) <= 2
Sample(R, n, k, x, y, th, gain, before) ==
  IF R.kind = "ring" THEN RingSample(R, n, k, x, y, th) /\ gain = before ELSE CentSample(R, n, k, x, y, th, gain)
=============================================================================
