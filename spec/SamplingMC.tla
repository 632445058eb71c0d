------------------------------ MODULE SamplingMC -----------------------------
(* Design model: going through the samples in order and keeping the first of least *)
(* cost finds a sample of least cost, or none exactly when none qualifies.          *)
EXTENDS Sampling
S == {<<x, 50000, 0, re, wt, g>> : x \in {0 - 1, 50000, 200000}, re \in BOOLEAN, wt \in {1, 2}, g \in {0, 1, 3}}
VARIABLES g, best
Init == g = <<>> /\ best = 0
Next == Len(g) < 3 /\ \E s \in S : g' = Append(g, s)
        /\ best' = IF Qualifies(2, 1, s) /\ (best = 0 \/ Cost(s) < Cost(g[best])) THEN Len(g) + 1 ELSE best
Right == /\ (best = 0 <=> None(2, 1, g))
         /\ best # 0 => Qualifies(2, 1, g[best]) /\ Cost(g[best]) = Least(2, 1, g, Len(g))
         /\ best = Loop(2, 1, g, 1, 0)
=============================================================================
