----------------------------- MODULE NodesTrace -----------------------------
EXTENDS Nodes, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, n
vars == <<c, i, n>>
T == Cases[c].t
Ops == Cases[c].ops
Op == Ops[i + 1]
More == i < Len(Ops)
NoNode == [clean |-> FALSE]
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0 /\ n = NoNode
Adv(m) == n' = m /\ i' = i + 1 /\ UNCHANGED c
Bool(v) == v # 0
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Obs == /\ n.clean
       /\ Op[2] = n.x /\ Op[3] = n.y
       /\ n.theta # ANY => Op[4] = n.theta
       /\ Op[5] = n.dist /\ Op[6] = TRUE
       /\ \A m \in 1 .. 15 : ((Op[7] \div Pow2(m)) % 2 = 1) <=> IsMarked(n, m)
       /\ Op[8] = n.h
       /\ Op[9] = n.forward /\ Op[10] = n.steer /\ Op[11] = n.depth
       /\ Op[12] = TRUE
       /\ T # 2 => Op[13] = Total(T, n)
Step == /\ More
        /\ CASE Op[1] = 0 -> Adv(InitXY(T, Op[2], Op[3]))
             [] Op[1] = 1 -> Adv(InitFull(T, Op[2], Op[3], Op[4], Op[5], Bool(Op[6])))
             [] Op[1] = 2 -> Adv(InitPose(T, Op[2], Op[3], Op[4]))
             [] Op[1] = 3 -> Adv(Mark(n, Op[2]))
             [] Op[1] = 4 -> Adv(UnMark(n, Op[2]))
             [] Op[1] = 5 -> Adv(Costs(T, n, Op[2], Op[3]))
             [] Op[1] = 6 -> Obs = TRUE /\ Adv(n)
             [] Op[1] = 7 -> Adv(NoNode)
CmpOk == \A k \in 1 .. Len(Cases[c].cmp) :
           LET p == Cases[c].cmp[k]
               a == p[1] + (IF HasH(T) THEN p[2] ELSE 0)
               b == p[3] + (IF HasH(T) THEN p[4] ELSE 0)
           IN p[5] = (a > b) /\ p[6] = (b > a)
Done == i = Len(Ops) /\ CmpOk = TRUE /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
