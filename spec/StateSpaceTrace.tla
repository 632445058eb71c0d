--------------------------- MODULE StateSpaceTrace --------------------------
EXTENDS StateSpace, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, S, seen
vars == <<c, i, S, seen>>
Ops == Cases[c].ops
Op == Ops[i + 1]
More == i < Len(Ops)
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0 /\ seen = <<>> /\ S = [w |-> 0, h |-> 0, pad |-> Cases[k].pad, slots |-> Cases[k].slots]
Adv == i' = i + 1 /\ UNCHANGED c
SetMap == More /\ Op[1] = "m" /\ S' = [S EXCEPT !.w = Op[2], !.h = Op[3]] /\ seen' = <<>> /\ Adv
Key == <<Op[2] \div 8, Op[3] \div 8, Op[4], Op[5]>>
LookOk == LET k == Key n == NodeOf(S, seen, k) IN Op[6] = n /\ (n # 0 => Op[7] = k[1] /\ Op[8] = k[2] /\ Op[9])
Look == More /\ Op[1] = "l" /\ LookOk = TRUE /\ seen' = After(S, seen, Key) /\ UNCHANGED S /\ Adv
AskOk == LET k == Key in == Inside(S, k[1], k[2], k[3]) IN
         /\ Op[6] = in /\ Op[7] = in /\ (~in => Op[8] = 0)
         /\ (Known(seen, k) # {} => Op[8] = 1)
Ask == More /\ Op[1] = "h" /\ AskOk = TRUE /\ UNCHANGED <<S, seen>> /\ Adv
Done == i = Len(Ops) /\ UNCHANGED vars
Next == SetMap \/ Look \/ Ask \/ Done
=============================================================================
