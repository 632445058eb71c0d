---------------------------- MODULE GridVastTrace ----------------------------
(* Searches over maps too large to be listed.  Costs in 10^-4 cells.             *)
(* WHAT selects the property judged: "P01" .. "P04".                             *)
EXTENDS Walls, Json, IOUtils
CONSTANT WHAT
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
Init == c \in 1 .. Len(Cases) /\ i = 0
V == Cases[c]
K == V.alg
Op == V.ops[i + 1]
More == i < Len(V.ops)
Judge ==
  LET F == TLCEval(Columns(V))
      s == <<Op[1], Op[2]>> g == <<Op[3], Op[4]>> p == Op[6] n == Len(p)
      Ends == TLCEval({ e \in (g[1] - 1 .. g[1] + 1) \X (g[2] - 1 .. g[2] + 1) : FreeCell(V, F, e[1], e[2]) /\ ~Shut(V, s, e) })
      Est(e) == H(K, e, g) \div 10
      Best == SetMin({ Length(Way(K, V, s, e)) + Est(e) : e \in Ends })
      Dx(k) == p[k + 1][1] - p[k][1] Dy(k) == p[k + 1][2] - p[k][2]
      Diag(k) == Dx(k) # 0 /\ Dy(k) # 0
      Steps == 1 .. n - 1
      Sound == n > 0 => /\ XY(p[1]) = s
                        /\ AtGoal(K, g, XY(p[n]))
                        /\ \A k \in Steps : IsStep(K, XY(p[k]), XY(p[k + 1]))
                        /\ \A k \in 1 .. n : FreeCell(V, F, p[k][1], p[k][2])
                        /\ Cardinality({ XY(p[k]) : k \in 1 .. n }) = n
                        /\ AtGoal(K, g, s) => n = 1
      Complete == (n > 0) <=> (Ends # {})
      Cheap == n > 0 => /\ p[1][3] = 0
                        /\ \A k \in Steps : Abs(p[k + 1][3] - p[k][3] - (IF Diag(k) THEN 14142 ELSE 10000)) <= 2
                        /\ LET d == Cardinality({ k \in Steps : Diag(k) }) IN Abs(p[n][3] - Length(<<n - 1 - d, d>>)) <= 3
                        /\ Consistent(K) => Abs(p[n][3] + Est(XY(p[n])) - Best) <= 5
  IN /\ WHAT \in {"P02", "P04"} => Op[5] = 0
     /\ Op[5] = 0 => CASE WHAT = "P01" -> Sound
                       [] WHAT = "P02" -> Complete
                       [] WHAT = "P03" -> Cheap
                       [] WHAT = "P04" -> Sound /\ Complete /\ Cheap /\ (Op[8] >= 0 => Op[7] = Op[8])
Step == More /\ Judge = TRUE /\ i' = i + 1 /\ UNCHANGED c
Done == i = Len(V.ops) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
