---------------------------- MODULE LegacyAStar -----------------------------
(* The legacy A* planner.  It searches from the goal towards the start over the *)
(* 8-neighbourhood; only free cells are entered, the goal cell is taken as is.   *)
(* Maps and shortest distances are those of GridSearch with kind <<1, 8, 1, _>>. *)
EXTENDS GridSearch
K8 == <<1, 8, 1, 1>>
(* what a plan has to say: cells as <<x, y>>, p a sequence of cells             *)
Feasible(M, s, g) == InMap(M, s[1], s[2]) /\ InMap(M, g[1], g[2]) /\ s \in Reachable(K8, M, g)
PathLength(p) == LET RECURSIVE Sum(_)
                     Sum(k) == IF k >= Len(p) THEN 0 ELSE StepCost(K8, p[k + 1][1] - p[k][1], p[k + 1][2] - p[k][2]) + Sum(k + 1)
                 IN Sum(1)
Simple(p) == \A a, b \in 1 .. Len(p) : p[a] = p[b] => a = b
Chain(M, s, g, p) == /\ p[1] = s /\ p[Len(p)] = g /\ Simple(p)
                     /\ \A k \in 1 .. Len(p) - 1 : IsStep(K8, p[k], p[k + 1]) /\ Free(M, p[k][1], p[k][2])
(* estimates are compared as whole cells, so every step of a best path may lose  *)
(* up to one cell: the path found exceeds the shortest by at most its step count *)
Short(M, s, g, p) == LET d == Distances(K8, M, g)[s] IN PathLength(p) <= 2 * d
Answer(M, s, g, ok, p) == IF Feasible(M, s, g) THEN ok /\ p # <<>> /\ Chain(M, s, g, p) /\ Short(M, s, g, p) ELSE ~ok /\ p = <<>>
=============================================================================
