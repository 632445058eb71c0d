-------------------------- MODULE VehicleGoalTrace --------------------------
(* Recorded answers of the goal test. *)
EXTENDS VehicleSpace, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
K == Cases[c]
Op == K.ops[i + 1]
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0
Ok == LET a == Reached(K.v, Op.g, Op.r, Op.pv) IN a = "?" \/ (a = "yes") = Op.yes
Next == \/ i < Len(K.ops) /\ Ok = TRUE /\ i' = i + 1 /\ UNCHANGED c
        \/ i = Len(K.ops) /\ UNCHANGED vars
=============================================================================
