---------------------------- MODULE SamplingTrace ----------------------------
EXTENDS Sampling, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
M == Cases[c]
Q == M.qs[i + 1]
StartIn == LET x == Q.s[1] - 16 * M.ox y == Q.s[2] - 16 * M.oy IN x >= 0 /\ y >= 0 /\ x < 16 * M.w /\ y < 16 * M.h
Tol(s) == 1200 + (IF Q.real THEN s[5] ELSE 0)
Near(a, b) == Abs(a - b) <= 3
Named(s) == Near(s[1], Q.res[4]) /\ Near(s[2], Q.res[5]) /\ Apart(s[3], Q.res[6]) <= 5 /\ Near(s[5], Q.res[7])
Ok ==
  IF ~StartIn THEN ~Q.found
  ELSE /\ Q.inits = <<Q.asked>>
       /\ IF ~Q.found THEN None(M.w, M.h, Q.g)
          ELSE /\ Near(Q.res[1], Q.sc[1]) /\ Near(Q.res[2], Q.sc[2]) /\ Apart(Q.res[3], Q.sc[3]) <= 5
               /\ LET b == Least(M.w, M.h, Q.g, Len(Q.g)) IN
                  \E k \in 1 .. Len(Q.g) : Qualifies(M.w, M.h, Q.g[k]) /\ Named(Q.g[k]) /\ Cost(Q.g[k]) <= b + Tol(Q.g[k])
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0
Step == i < Len(M.qs) /\ Ok = TRUE /\ i' = i + 1 /\ UNCHANGED c
Done == i = Len(M.qs) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
