------------------------------ MODULE Vehicle ------------------------------
(* Motion primitives of the three vehicle neighbourhoods.                         *)
(*  k = "S": fixed steering, "D": dynamic steering, "N": turns on the spot.        *)
(*  configuration: dist, la (step and wheel base, cm), res (cell, cm), delta, max   *)
(*  (degrees), steps, rev, sw (straight pieces around a change of direction), dirs  *)
(*  (driving directions offered), half (half turns offered), pb, pt (penalties in   *)
(*  1/1000).                                                                        *)
(*  state: x, y (10^-5 cells), t (10^-7 rad), st (degrees), f (forward), cu (straight *)
(*  pieces still owed), first (nothing driven yet), hist (were the pieces before the  *)
(*  last one straight, latest first).                                               *)
EXTENDS Trig, FiniteSets
TAN == <<174551, 349208, 524078, 699268, 874887, 1051042, 1227846, 1405408, 1583844, 1763270, 1943803, 2125566, 2308682, 2493280, 2679492, 2867454, 3057307, 3249197, 3443276, 3639702, 3838640, 4040262, 4244748, 4452287, 4663077, 4877326, 5095254, 5317094, 5543091, 5773503, 6008606, 6248694, 6494076, 6745085, 7002075, 7265425, 7535541, 7812856, 8097840, 8390996, 8692867, 9004040, 9325151, 9656888, 10000000, 10355303, 10723687, 11106125, 11503684, 11917536, 12348972, 12799416, 13270448, 13763819, 14281480, 14825610, 15398650, 16003345, 16642795, 17320508, 18040478, 18807265, 19626105, 20503038, 21445069, 22460368, 23558524, 24750869, 26050891, 27474774, 29042109, 30776835, 32708526, 34874144, 37320508, 40107809, 43314759, 47046301, 51445540, 56712818>>
COTI == <<57, 28, 19, 14, 11, 9, 8, 7, 6, 5, 5, 4, 4, 4, 3, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
COTF == <<77835983, 170792940, 21779964, 80709484, 115441286, 138073657, 38747699, 30969324, 84222031, 180195841, 38803423, 189147705, 88979877, 2893985, 196508392, 130839318, 72706446, 20853016, 242722259, 200649442, 162427359, 127530156, 95523392, 66044994, 38790781, 13503335, 258398790, 236418210, 215834926, 196508392, 178316166, 161151073, 144918898, 129536474, 114930105, 101034252, 87790426, 75146260, 63054725, 51473463, 40364212, 29692321, 19426328, 9537596, 0, 259225107, 250320112, 241700370, 233347382, 225244092, 217374746, 209724763, 202280625, 195029775, 187960530, 181062001, 174324023, 167737089, 161292294, 154981283, 148796203, 142729664, 136774696, 130924720, 125173509, 119515165, 113944091, 108454964, 103042717, 97702516, 92429740, 87219967, 82068955, 76972628, 71927064, 66928476, 61973208, 57057718, 52178567, 47332413>>
(* a * b \div c with b split, a < 2^9 *)
Part(a, b, c) == a * (b \div c) + ((a * (b % c)) \div c)
StepLen(v) == (v.dist * 100000 + v.res \div 2) \div v.res
BaseLen(v) == (v.la * 100000 + v.res \div 2) \div v.res
Turned(v, st) == IF st = 0 THEN 0 ELSE Sgn(st) * Part(v.dist, TAN[Abs(st)], v.la)     \* heading change over one step
Radius(v, st) == LET b == BaseLen(v) IN b * COTI[Abs(st)] + MulF(b, COTF[Abs(st)])
Straight(x, y, t, len) == LET cs == CosSin(t) IN <<x + MulF(len, cs[1]), y + MulF(len, cs[2])>>
(* the end of an arc lies at the chord from its start *)
ArcEnd(v, s, st, dir) ==
  LET dt == dir * Turned(v, st) IN
  IF st = 0 THEN LET p == Straight(s.x, s.y, s.t, dir * StepLen(v)) IN <<p[1], p[2], Wrap(s.t)>>
  ELSE LET half == CosSin(dt \div 2) chord == dir * 2 * MulF(Radius(v, st), Abs(half[2]))
           p == Straight(s.x, s.y, s.t + dt \div 2, chord) IN <<p[1], p[2], Wrap(s.t + dt)>>
Dir(v, f) == IF f # v.rev THEN 1 ELSE 0 - 1
Switched(v, s, f) == f # s.f /\ (v.k = "S" \/ ~s.first)
(* enough straight pieces lie behind, not counting the last one *)
Settled(v, s) == Len(s.hist) >= v.sw - 1 /\ \A n \in 1 .. v.sw - 1 : s.hist[n]
Owed(v, s, f) == IF Switched(v, s, f) THEN v.sw - 1 ELSE IF s.cu > 0 THEN s.cu - 1 ELSE 0
Weighed(len, p, n) == IF p THEN Part(n, len, 1000) ELSE len
Cost(v, s, f) == Weighed(Weighed(StepLen(v), Switched(v, s, f), v.pt), ~f, v.pb)
Clamp(v, st) == Max(0 - v.max, Min(v.max, st))
Steers(v, s) == {s.st}
  \cup (IF s.st > 0 - v.max THEN {Clamp(v, s.st - n * v.delta) : n \in 1 .. v.steps} ELSE {})
  \cup (IF s.st < v.max THEN {Clamp(v, s.st + n * v.delta) : n \in 1 .. v.steps} ELSE {})
(* which directions and steering angles (turns, for "N") may come next *)
SteerMoves(v, s) ==
  IF s.cu > 0 /\ s.st # 0 THEN {}
  ELSE {<<f, st>> \in v.dirs \X Steers(v, s) :
         /\ s.first => f = s.f
         /\ f # s.f => s.cu = 0 /\ st = 0 /\ Settled(v, s) /\ Cardinality(v.dirs) = 2
         \* the dynamic vehicle first drives its wheel base straight when it starts backward
         /\ v.k = "D" /\ ~v.rev /\ s.first /\ ~f => st = s.st}
TurnMoves(v, s) ==
  {<<f, st>> \in v.dirs \X ({0 - 2, 0, 2} \cup (IF v.half THEN {0 - 1, 1} ELSE {})) :
     /\ s.first => st = 0
     /\ s.cu > 0 => st = 0
     /\ Switched(v, s, f) => s.cu = 0 /\ st = 0 /\ Settled(v, s)}
Moves(v, s) == IF v.k = "N" THEN TurnMoves(v, s) ELSE SteerMoves(v, s)
(* where a move leads *)
Leads(v, s, m) ==
  LET f == m[1] st == m[2] IN
  IF v.k = "D" /\ ~v.rev /\ s.first /\ ~f
  THEN LET p == Straight(s.x, s.y, s.t, 0 - BaseLen(v)) IN
       [f |-> f, st |-> 0, cu |-> 0, cost |-> Weighed(BaseLen(v), TRUE, v.pb), x |-> p[1], y |-> p[2], t |-> Wrap(s.t)]
  ELSE IF v.k = "N"
  THEN LET t == s.t + st * Part(v.max, PI, 3600)
           p == Straight(s.x, s.y, t + v.rot, Dir(v, f) * StepLen(v)) IN
       [f |-> f, st |-> 0, cu |-> Owed(v, s, f), cost |-> Cost(v, s, f), x |-> p[1], y |-> p[2], t |-> Wrap(t)]
  ELSE LET e == ArcEnd(v, s, st, Dir(v, f)) IN
       [f |-> f, st |-> st, cu |-> Owed(v, s, f), cost |-> Cost(v, s, f), x |-> e[1], y |-> e[2], t |-> e[3]]
Successors(v, s) == {Leads(v, s, m) : m \in Moves(v, s)}
=============================================================================
