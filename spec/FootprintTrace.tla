--------------------------- MODULE FootprintTrace ---------------------------
(* Recorded answers of collision maps.  Lengths of the footprint in 10^-5 cells,    *)
(* angles in 10^-7 rad.  x: cells that differ from the background, <<x, y, class>>  *)
(* with classes "O" occupied, "F" free, "N" without information.                     *)
EXTENDS Footprint, Trig, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
K == Cases[c]
Op == K.ops[i + 1]
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0
Map == K.maps[Op.m]
CELL == 100000
(* one and a half cells and half a discrete heading at the reach of the vehicle *)
Margin == 150000 + (Max(K.front, 0 - K.back) + K.half) \div 36
(* offset of cell e in the frame of the vehicle at Op.p *)
Rel(e, cs) == LET dx == (e[1] - Op.p[1]) * CELL dy == (e[2] - Op.p[2]) * CELL IN
  <<MulF(dx, cs[1]) + MulF(dy, cs[2]), MulF(dy, cs[1]) - MulF(dx, cs[2])>>
DeepIn(r) == Deep(r[1], r[2], K.back, K.front, K.half, Margin)
NearTo(r) == Near(r[1], r[2], K.back, K.front, K.half, Margin)
Inside == Op.p[1] >= 0 /\ Op.p[2] >= 0 /\ Op.p[1] < K.w /\ Op.p[2] < K.h
ClassAt(p) == IF \E k \in DOMAIN Map.x : Map.x[k][1] = p[1] /\ Map.x[k][2] = p[2]
              THEN Map.x[CHOOSE k \in DOMAIN Map.x : Map.x[k][1] = p[1] /\ Map.x[k][2] = p[2]][3] ELSE Map.bg
Ok ==
  IF ~Inside THEN ~Op.occ /\ ~Op.free /\ ~Op.none
  ELSE
  LET cs == TLCEval(CosSin(Op.t)) own == ClassAt(Op.p)
      rel == TLCEval([k \in DOMAIN Map.x |-> Rel(Map.x[k], cs)])
      D(C) == \E k \in DOMAIN Map.x : Map.x[k][3] \in C /\ DeepIn(rel[k])
      N(C) == \E k \in DOMAIN Map.x : Map.x[k][3] \in C /\ NearTo(rel[k]) IN
  /\ (own = "O" \/ D({"O"}) => Op.occ)
  /\ (own # "O" /\ ~N({"O"}) => ~Op.occ)
  /\ (own # "F" \/ D({"O", "N"}) => ~Op.free)
  /\ (own = "F" /\ Map.bg = "F" /\ ~N({"O", "N"}) => Op.free)
  /\ (own = "O" \/ D({"O", "F"}) => ~Op.none)
  /\ (own = "N" /\ Map.bg = "N" /\ ~N({"O", "F"}) => Op.none)
  \* the same for turns by full circles
  /\ Op.same
Next == \/ i < Len(K.ops) /\ Ok = TRUE /\ i' = i + 1 /\ UNCHANGED c
        \/ i = Len(K.ops) /\ UNCHANGED vars
=============================================================================
