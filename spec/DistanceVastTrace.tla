------------------------- MODULE DistanceVastTrace --------------------------
(* Distance transformations of maps too large to be listed: some cells of the field, and the     *)
(* descent.  The maps lie within a closed border, which is not part of V.                          *)
EXTENDS Walls, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
V == Cases[c]
K8 == <<0, 8, 1, 1>>
Q == V.qs[i + 1]
Dist(g, p) == IF Shut(V, g, p) THEN INF ELSE Length(Way(K8, V, g, p))
Same(a, b) == IF b >= INF THEN a >= INF ELSE a < INF /\ Abs(a - b) <= 5
(* the neighbours of a cell that a descent may take next *)
Nearest(F, g, p) == LET N == TLCEval([ n \in { <<p[1] + a, p[2] + b>> : a, b \in -1 .. 1 } \ {p} |-> IF FreeCell(V, F, n[1], n[2]) THEN Dist(g, n) ELSE INF ])
                        m == SetMin({ N[n] : n \in DOMAIN N })
                    IN { n \in DOMAIN N : N[n] <= m + 5 }
Judge ==
  LET F == TLCEval(Columns(V)) g == Q.b p == Q.path n == Len(p)
      Some == { k \in 1 .. n - 1 : n <= 200 \/ k <= 20 \/ k >= n - 20 \/ k % (n \div 150) = 0 }
  IN /\ \A k \in DOMAIN Q.field : Same(Q.field[k][3], Dist(g, XY(Q.field[k])))
     /\ n >= 1 /\ XY(p[1]) = Q.a
     /\ IF Shut(V, Q.a, g) THEN n = 1 ELSE XY(p[n]) = g /\ p[n][3] = 0
     /\ \A k \in 1 .. n : FreeCell(V, F, p[k][1], p[k][2])
     /\ \A k \in 1 .. n - 1 : IsStep(K8, XY(p[k]), XY(p[k + 1])) /\ p[k + 1][3] < p[k][3]
     /\ \A k \in Some : Same(p[k][3], Dist(g, XY(p[k]))) /\ XY(p[k + 1]) \in Nearest(F, g, XY(p[k]))
Init == c \in 1 .. Len(Cases) /\ i = 0
Step == i < Len(V.qs) /\ Judge = TRUE /\ i' = i + 1 /\ UNCHANGED c
Done == i = Len(V.qs) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
