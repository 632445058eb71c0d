------------------------------ MODULE LineTrace -----------------------------
EXTENDS Raster, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
Ls == Cases[c].ls
Q == Ls[i + 1]
In(x, y) == x >= 0 /\ y >= 0 /\ x < Cases[c].w /\ y < Cases[c].h
Ok == /\ Q[6] = TRUE
      /\ IF In(Q[1], Q[2]) /\ In(Q[3], Q[4]) THEN Staircase(<<Q[1], Q[2]>>, <<Q[3], Q[4]>>, Q[5]) ELSE Q[5] = <<>>
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0
Step == i < Len(Ls) /\ Ok = TRUE /\ i' = i + 1 /\ UNCHANGED c
Done == i = Len(Ls) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
