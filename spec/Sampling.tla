------------------------------- MODULE Sampling ------------------------------
(* The sampling planner: of the samples inside the map that a curve reaches, the   *)
(* one with the least gain times weight.  A sample is a tuple                       *)
(* <<x, y, heading, reached, weight, gain>>, x and y in 10^-5 cells of the map.     *)
EXTENDS Trig
InCells(w, h, x, y) == x >= 0 /\ y >= 0 /\ x < w * 100000 /\ y < h * 100000
Qualifies(w, h, s) == InCells(w, h, s[1], s[2]) /\ s[4]
Cost(s) == s[5] * s[6]
(* the samples an answer may name: no other qualified sample is cheaper by more than rounding *)
RECURSIVE Least(_, _, _, _)
Least(w, h, g, k) == IF k = 0 THEN 2000000000 ELSE LET b == Least(w, h, g, k - 1) IN IF Qualifies(w, h, g[k]) THEN Min(b, Cost(g[k])) ELSE b
None(w, h, g) == \A k \in 1 .. Len(g) : ~Qualifies(w, h, g[k])
(* the loop of the implementation, exactly *)
RECURSIVE Loop(_, _, _, _, _)
Loop(w, h, g, k, best) == IF k > Len(g) THEN best
  ELSE Loop(w, h, g, k + 1, IF Qualifies(w, h, g[k]) /\ (best = 0 \/ Cost(g[k]) < Cost(g[Max(best, 1)])) THEN k ELSE best)
=============================================================================
