----------------------------- MODULE RegionsTrace ----------------------------
EXTENDS Regions, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, n, k
vars == <<c, i, n, k>>
R == Cases[c]
Ops == R.ops
Op == Ops[i + 1]
Init == \E q \in 1 .. Len(Cases) : c = q /\ i = 0 /\ n = 0 /\ k = 0
More == i < Len(Ops)
Adv == i' = i + 1 /\ UNCHANGED c
Begin == More /\ Op[1] = "i" /\ n' = Op[2] /\ k' = 0 /\ Adv
SampleOk == k < Count(R, n) /\ Sample(R, n, k, Op[2], Op[3], Op[4], Op[5], Op[6])
Deliver == More /\ Op[1] = "s" /\ SampleOk = TRUE /\ k' = k + 1 /\ UNCHANGED n /\ Adv
Exhausted == More /\ Op[1] = "e" /\ k = Count(R, n) /\ UNCHANGED <<n, k>> /\ Adv
Done == i = Len(Ops) /\ UNCHANGED vars
Next == Begin \/ Deliver \/ Exhausted \/ Done
=============================================================================
