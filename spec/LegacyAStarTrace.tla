-------------------------- MODULE LegacyAStarTrace --------------------------
(* Histories of one planner object: ["m", k] the object is told to use map k,     *)
(* ["r", k, w, h, cells] map k gets another size or content in place, ["p", sx,   *)
(* sy, gx, gy, ok, path] a plan and its answer, read twice.                       *)
EXTENDS LegacyAStar, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, maps, cur
vars == <<c, i, maps, cur>>
Ops == Cases[c].ops
Op == Ops[i + 1]
More == i < Len(Ops)
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0 /\ maps = Cases[k].maps /\ cur = 1
Adv == i' = i + 1 /\ UNCHANGED c
TMap == More /\ Op[1] = "m" /\ cur' = Op[2] /\ UNCHANGED maps /\ Adv
TResize == More /\ Op[1] = "r" /\ maps' = [maps EXCEPT ![Op[2]] = [w |-> Op[3], h |-> Op[4], cells |-> Op[5]]] /\ UNCHANGED cur /\ Adv
Ok == Answer(maps[cur], <<Op[2], Op[3]>>, <<Op[4], Op[5]>>, Op[6], [k \in 1 .. Len(Op[7]) |-> <<Op[7][k][1], Op[7][k][2]>>])
TPlan == More /\ Op[1] = "p" /\ Ok = TRUE /\ UNCHANGED <<maps, cur>> /\ Adv
Done == i = Len(Ops) /\ UNCHANGED vars
Next == TMap \/ TResize \/ TPlan \/ Done
=============================================================================
