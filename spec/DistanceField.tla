---------------------------- MODULE DistanceField ---------------------------
(* Searches by distance transformation: every cell knows its distance to the goal, and the path   *)
(* goes down to the nearest neighbour until it stands on the goal or nothing is nearer.            *)
EXTENDS Heuristic
(* what is not free can not be passed *)
Solid(w, h, cells) == [w |-> w, h |-> h, cells |-> [k \in 1 .. w * h |-> IF cells[k] = 0 THEN 0 ELSE 1]]
Whole(M, g) == Distances(FIELD, M, g)
(* the outermost cells are a frame: they are only left and entered, never passed *)
Framed(M, g) == Distances(FIELD, Inner(M), g)
Around(M, c) == { n \in { <<c[1] + o[1], c[2] + o[2]>> : o \in Offsets8(1) } : InMap(M, n[1], n[2]) }
Lowest(M, d, c) == SetMin({ d[n] : n \in Around(M, c) } \cup {INF})
(* the neighbours that a descent may take next, values nearer than tol being equal *)
Below(M, d, c, tol) == LET m == Lowest(M, d, c) IN IF m >= d[c] THEN {} ELSE { n \in Around(M, c) : d[n] <= m + tol }
=============================================================================
