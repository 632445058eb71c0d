---------------------------- MODULE HeuristicTrace --------------------------
EXTENDS Heuristic, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
IsField == "fs" \in DOMAIN Cases[c]
Qs == IF IsField THEN Cases[c].fs ELSE Cases[c].qs
Q == Qs[i + 1]
Near(a, b) == Abs(a - b) <= 20
NormOk == LET dx == Q[1] dy == Q[2] n == dx * dx + dy * dy l1 == L1(dx, dy) l2 == L2(dx, dy) li == LInf(dx, dy) IN
  /\ Near(Q[3], l2) /\ Near(Q[4], l1) /\ Near(Q[5], li) /\ Near(Q[6], l2)
  /\ (n <= 1200 => FloorPow(Q[7], 1, n))
  /\ (n <= 125 => FloorPow(Q[8], 4, n))
  /\ Near(Q[9], l1) /\ Near(Q[10], l2) /\ Near(Q[11], l2) /\ Q[12]
FieldOk ==
  LET w == Q[1] h == Q[2] pad == Q[3]
      M == TLCEval(Ext(w, h, pad, Q[4]))
      g == <<Q[5] + pad, Q[6] + pad>>
      D == TLCEval(Distances(FIELD, M, g))
      I == TLCEval(Distances(FIELD, Inner(M), g))
      V == Q[7]
      NearF(a, b) == Abs(a - b) <= M.w + M.h + 10    \* the diagonal step is 0.356 units longer than DIAG
  IN \A k \in 1 .. Len(V) :
       LET p == <<V[k][1] + pad, V[k][2] + pad>> v == V[k][3]
           dx == p[1] - g[1] dy == p[2] - g[2]
           blocked == Occupied(M, p[1], p[2]) /\ p # g
       IN /\ IF blocked THEN v = INF
             ELSE \/ v = 0 /\ (I[p] = INF \/ p = g)
                  \/ I[p] < INF /\ NearF(v, I[p])
                  \/ D[p] < INF /\ NearF(v, D[p])
          /\ IF blocked THEN V[k][4] = INF /\ V[k][5] = INF
             ELSE NearF(V[k][4], Max(v, L2(dx, dy))) /\ NearF(V[k][5], Max(v, LInf(dx, dy)))
Ok == IF IsField THEN FieldOk ELSE NormOk
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0
Step == i < Len(Qs) /\ Ok = TRUE /\ i' = i + 1 /\ UNCHANGED c
Done == i = Len(Qs) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
