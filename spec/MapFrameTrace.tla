---------------------------- MODULE MapFrameTrace ---------------------------
EXTENDS MapFrame, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
Fr == Cases[c]
Ops == Fr.ops
Op == Ops[i + 1]
Abs(a) == IF a < 0 THEN -a ELSE a
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0
(* <<"p", px, py, converted, x, y, in map, converted with fraction, floor x, floor y, 64x, 64y, the overloads agree>> *)
PointOk ==
  LET nx == NX(Fr, Op[2], Op[3]) ny == NY(Fr, Op[2], Op[3]) IN
  /\ Op[13] = TRUE
  /\ Op[9] \in CellsOf(Fr, nx) /\ Op[10] \in CellsOf(Fr, ny)
  /\ Op[8] = InMap(Fr, Op[9], Op[10])
  /\ Op[7] = Op[4]
  /\ \E x \in CellsOf(Fr, nx), y \in CellsOf(Fr, ny) : Op[4] = InMap(Fr, x, y) /\ (Op[4] => Op[5] = x /\ Op[6] = y)
  /\ Abs(Op[11] - Sub64(Fr, nx)) <= 1 /\ Abs(Op[12] - Sub64(Fr, ny)) <= 1
(* <<"c", x, y, centre x, centre y, converts back, x, y, all variants agree>> *)
CentreOk == /\ Abs(Op[4] - CentreX(Fr, Op[2], Op[3])) <= 1 /\ Abs(Op[5] - CentreY(Fr, Op[2], Op[3])) <= 1
            /\ Op[6] = TRUE /\ Op[7] = Op[2] /\ Op[8] = Op[3] /\ Op[9] = TRUE
IntOk == Op[4] = InMap(Fr, Op[2], Op[3])
FreeOk == /\ Abs(Op[4] - Sub64(Fr, NX(Fr, Op[2], Op[3]))) <= 1 /\ Abs(Op[5] - Sub64(Fr, NY(Fr, Op[2], Op[3]))) <= 1
          /\ Op[6] = Op[2] /\ Op[7] = Op[3] /\ Op[8] = TRUE
Ok == CASE Op[1] = "p" -> PointOk [] Op[1] = "c" -> CentreOk [] Op[1] = "i" -> IntOk [] Op[1] = "f" -> FreeOk
Step == i < Len(Ops) /\ Ok = TRUE /\ i' = i + 1 /\ UNCHANGED c
Done == i = Len(Ops) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
