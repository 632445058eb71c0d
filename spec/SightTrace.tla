----------------------------- MODULE SightTrace -----------------------------
EXTENDS Sight, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
m == Cases[c]
Qs == m.qs
Q == Qs[i + 1]
K == m.n \div 2
S == <<Floor8(Q[2]), Floor8(Q[3])>>
E == <<Floor8(Q[4]), Floor8(Q[5])>>
EastQ == East(Q[4] - Q[2], Q[5] - Q[3])
B(b) == IF b THEN 1 ELSE 0
Ok == CASE Q[1] = "l" -> LET L == TLCEval(Line(S, E)) e == EastQ IN Q[6] = B(ExactFree(m, L, e)) /\ Q[7] = B(ExactNotOcc(m, L, e))
        [] Q[1] = "s" -> LET L == TLCEval(Line(S, E)) e == EastQ
                             fr == TLCEval([k \in 1 .. Len(L) |-> FreeAt(m, L[k], e)])
                             no == TLCEval([k \in 1 .. Len(L) |-> ~OccAt(m, L[k], e)])
                         IN /\ MaySay(fr, FreeAt(m, E, e), K, Q[6] = 1)
                            /\ MaySay(no, ~OccAt(m, E, e), K, Q[7] = 1)
                            /\ MaySay(no, ~OccAt(m, E, e), K, Q[8] = 0)
        [] Q[1] = "c" -> LET p == <<Q[2], Q[3]>> e == Q[4] = 1 IN
                         Q[5] = B(FreeAt(m, p, e)) /\ (Q[6] # -1 => Q[6] = B(~OccAt(m, p, e))) /\ Q[7] = B(OccAt(m, p, e))
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0
Step == i < Len(Qs) /\ Ok = TRUE /\ i' = i + 1 /\ UNCHANGED c
Done == i = Len(Qs) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
