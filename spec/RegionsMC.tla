------------------------------ MODULE RegionsMC ------------------------------
(* Design model: a region counts its samples.  Every interleaving of new passes    *)
(* and requests delivers samples 0 .. n-1 once each and in order, and the geometry  *)
(* of a pass is that of the region: all samples of a ring have the ring's distance  *)
(* from the centre, those of a centroid region look at the centre.                  *)
EXTENDS Regions
Ns == 1 .. 5
Regs == {[kind |-> "ring", cx |-> 100000, cy |-> 0 - 250000, r |-> rr, w |-> 0, sx |-> 0, sy |-> 0, a |-> 0] : rr \in {150000, 0 - 300000}}
    \cup {[kind |-> "cent", cx |-> 100000, cy |-> 50000, r |-> 200000, w |-> 0, sx |-> 0 - 100000, sy |-> 70000, a |-> an] : an \in {0, 12000000}}
VARIABLES R, n, k, out
vars == <<R, n, k, out>>
Init == R \in Regs /\ n \in Ns /\ k = 0 /\ out = <<>>
Begin == n' \in Ns /\ k' = 0 /\ out' = <<>> /\ UNCHANGED R
Next1 == k < Count(R, n) /\ k' = k + 1 /\ out' = Append(out, k) /\ UNCHANGED <<R, n>>
None == k = Count(R, n) /\ UNCHANGED vars
Next == Begin \/ Next1 \/ None
EachOnce == out = [q \in 1 .. k |-> q - 1] /\ k <= Count(R, n)
Complete == ENABLED None => Len(out) = Count(R, n)
(* the sample the judgement accepts exists and is unique to its index *)
Ideal(m, q) == IF R.kind = "ring" THEN LET al == Part(TURN, q, m) p == Polar(R.cx, R.cy, Abs(R.r), al) IN <<p[1], p[2], al + Sgn(R.r) * HALF, 0>>
  ELSE LET c == Count(R, m) th == Atan2(R.cy - R.sy, R.cx - R.sx) - (IF c = 1 THEN 0 ELSE R.a \div 2 - Part(R.a, q, c - 1)) p == Polar(R.cx, R.cy, 0 - R.r, th)
       IN <<p[1], p[2], th, IF c = 1 THEN 1000000 ELSE 1000000 + Abs(Part(2000000, q, c - 1) - 1000000)>>
Judged == \A q1, q2 \in 0 .. Count(R, n) - 1 : LET s == Ideal(n, q1) IN Sample(R, n, q2, s[1], s[2], s[3], s[4], s[4]) <=> q1 = q2
Sound == EachOnce /\ Complete /\ Judged
=============================================================================
