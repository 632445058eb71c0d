-------------------------- MODULE DistanceFieldTrace ------------------------
EXTENDS DistanceField, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
Q == Cases[c].qs[i + 1]
(* the diagonal step is 0.356 units longer than DIAG *)
Slack == Q.w * Q.h + 10
Same(a, b) == IF b >= INF THEN a >= INF ELSE a < INF /\ Abs(a - b) <= Slack
Index(M, p) == 1 + p[2] * M.w + p[1]
FieldOk(M, d) == \A p \in Cells(M) : Same(Q.field[Index(M, p)], d[p])
Descends(M, d, g) ==
  LET p == Q.path n == Len(p) IN
  /\ n >= 1 /\ XY(p[1]) = Q.a
  /\ \A k \in 1 .. n : InMap(M, p[k][1], p[k][2]) /\ Same(p[k][3], d[XY(p[k])])
  /\ \A k \in 1 .. n - 1 : XY(p[k]) # g /\ XY(p[k + 1]) \in Below(M, d, XY(p[k]), Slack)
  /\ XY(p[n]) = g \/ Below(M, d, XY(p[n]), Slack) = {}
Ok == LET M == TLCEval(Solid(Q.w, Q.h, Q.cells))
          g == Q.b IN
      IF ~InMap(M, Q.a[1], Q.a[2]) \/ ~InMap(M, g[1], g[2]) THEN Q.threw
      ELSE /\ ~Q.threw
           /\ Q.stopped => Q.cb
           /\ (~Q.stopped) =>
                LET I == TLCEval(Framed(M, g)) IN
                \/ FieldOk(M, I) /\ Descends(M, I, g)
                \/ LET D == TLCEval(Whole(M, g)) IN FieldOk(M, D) /\ Descends(M, D, g)
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0
Step == i < Len(Cases[c].qs) /\ Ok = TRUE /\ i' = i + 1 /\ UNCHANGED c
Done == i = Len(Cases[c].qs) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
