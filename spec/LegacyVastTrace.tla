-------------------------- MODULE LegacyVastTrace ---------------------------
(* Plans of the legacy planner over maps too large to be listed.                *)
EXTENDS Walls, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
K8 == <<1, 8, 1, 1>>
Init == c \in 1 .. Len(Cases) /\ i = 0
V == Cases[c]
Op == V.ops[i + 1]
More == i < Len(V.ops)
Judge ==
  LET F == TLCEval(Columns(V))
      s == <<Op[1], Op[2]>> g == <<Op[3], Op[4]>> p == Op[6] n == Len(p)
      Steps == 1 .. n - 1
      Diag(k) == p[k + 1][1] # p[k][1] /\ p[k + 1][2] # p[k][2]
  IN IF Shut(V, s, g) THEN ~Op[5] /\ n = 0
     ELSE /\ Op[5] /\ n > 0
          /\ XY(p[1]) = s /\ XY(p[n]) = g
          /\ \A k \in Steps : IsStep(K8, XY(p[k]), XY(p[k + 1]))
          /\ \A k \in 1 .. n : FreeCell(V, F, p[k][1], p[k][2])
          /\ Cardinality({ XY(p[k]) : k \in 1 .. n }) = n
          /\ LET d == Cardinality({ k \in Steps : Diag(k) }) IN Length(<<n - 1 - d, d>>) \div 2 <= Length(Way(K8, V, s, g))
Step == More /\ Judge = TRUE /\ i' = i + 1 /\ UNCHANGED c
Done == i = Len(V.ops) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
