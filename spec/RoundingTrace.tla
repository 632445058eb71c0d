---------------------------- MODULE RoundingTrace ---------------------------
EXTENDS Rounding, Sequences, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
Xs == Cases[c].xs
X == Xs[i + 1]
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0
Ok == X[4] = Round(X[1], X[2], X[3]) /\ X[5] = -X[4] /\ Cases[c].constexpr
Step == i < Len(Xs) /\ Ok = TRUE /\ i' = i + 1 /\ UNCHANGED c
Done == i = Len(Xs) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
