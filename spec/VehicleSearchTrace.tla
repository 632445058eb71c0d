------------------------- MODULE VehicleSearchTrace -------------------------
(* A recorded vehicle search, expansion by expansion.                                 *)
(*  from, to: cells and headings asked for (a reversed planner searches from to).      *)
(*  starts: the states the search starts with.  ops: what was taken from the open list *)
(*  (s with id, d the cost so far in 10^-5 m, c the total promised when it entered, h what a heuristic of obstacles says itself, pv the position of its predecessor, g    *)
(*  the goal states at that time), and what entered it meanwhile (adds).  cut: later   *)
(*  expansions are not shown.  path: the answer, in the order of the search, at: when a *)
(*  state of it was last entered or improved.                                          *)
EXTENDS VehicleSpace, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
K == Cases[c]
Op == K.ops[i + 1]
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0
V == [K.v EXCEPT !.dirs = {K.v.dirs[n] : n \in DOMAIN K.v.dirs}]
M == K.map
A0 == IF K.v.rev THEN K.to ELSE K.from
G0 == IF K.v.rev THEN K.from ELSE K.to
Occupied(p) == \E n \in DOMAIN M.b : In(M.b[n], p.x * CELL + 50000, p.y * CELL + 50000, 0)
Off(p) == ~Bounded(M, p.x * CELL + 50000, p.y * CELL + 50000, 0)
Code == IF Off(A0) THEN 1 ELSE IF Occupied(A0) THEN 2 ELSE IF Off(G0) THEN 3 ELSE IF Occupied(G0) THEN 4 ELSE 0
Metres(cost) == Part(K.v.res, cost, 100)
(* states are told apart by cell, heading slot and direction *)
SlotOf(t) == LET b == Wrap(t) + PI IN ((b \div 1000) * M.slots) \div (TURN \div 1000)
SameCell(x, y) == LET lo == (y \div CELL) * CELL IN x >= lo - 100 /\ x <= lo + CELL + 100
Border(x, m) == LET r == x % CELL IN r < m \/ r > CELL - m
(* heading next to the border of a slot: within 10^-3 slots *)
SlotWidth == TURN \div M.slots
SlotBorder(t) == LET b == Wrap(t) + PI IN LET r == b % SlotWidth IN r < 40000 \/ r > SlotWidth - 40000
Entries(n) == {<<0, k>> : k \in DOMAIN K.starts} \cup UNION {{<<m, k>> : k \in DOMAIN K.ops[m].adds} : m \in 1 .. n}
Ent(e) == IF e[1] = 0 THEN K.starts[e[2]] ELSE K.ops[e[1]].adds[e[2]]
Later(e, f) == e[1] > f[1] \/ (e[1] = f[1] /\ e[2] > f[2])
Latest(id, n) == LET S == {e \in Entries(n) : Ent(e).id = id} IN CHOOSE e \in S : \A f \in S : e = f \/ Later(e, f)
(* a start that shares its cell and heading slot with the goal may take the goal's heading *)
AtGoal == A0.x = G0.x /\ A0.y = G0.y /\ Apart(A0.t, G0.t) <= SlotWidth + 20
(* nothing driven yet; vehicles that turn on the spot keep no count of their pieces *)
Starts == {K.starts[k].id : k \in DOMAIN K.starts}
Fresh(s) == IF V.k = "N" THEN s.id \in Starts ELSE s.dep = 0
StartOk(s) == s.x = A0.x * CELL /\ s.y = A0.y * CELL /\ (Apart(s.t, A0.t) <= 2 \/ (AtGoal /\ Apart(s.t, G0.t) <= 2)) /\ s.d = 0 /\ s.dep = 0 /\ s.st = 0 /\ s.cu = 0
Same(s, e) == s.x = e.x /\ s.y = e.y /\ (s.t = e.t \/ (Fresh(e) /\ AtGoal /\ Apart(s.t, G0.t) <= 2)) /\ s.st = e.st /\ s.f = e.f /\ s.cu = e.cu /\ s.dep = e.dep /\ s.d = e.d
GoalSeen == Fold(LAMBDA a, g : Either(a, Reached(V, g, Op.s, Op.pv)), "no", Op.g)
(* the goal itself, or what the search knows of that cell and heading *)
GoalsOk == \A k \in DOMAIN Op.g : LET g == Op.g[k] IN
  /\ g.x >= G0.x * CELL /\ g.x <= (G0.x + 1) * CELL /\ g.y >= G0.y * CELL /\ g.y <= (G0.y + 1) * CELL
  /\ Apart(g.t, G0.t) <= SlotWidth + 20
AddOk(s, A, o) == /\ V.k = "N" \/ o.dep = s.dep + 1
                  /\ \E a \in A : Fits(o, a) /\ ~Blocked(M, s, a) /\ Abs(o.d - s.d - Metres(a.cost)) <= 20 + a.cost \div 50000
Known(s, a) ==
  \/ Border(a.x, 100) \/ Border(a.y, 100) \/ SlotBorder(a.t)
  \/ \E e \in Entries(i + 1) : LET o == Ent(e) IN
       /\ o.f = a.f /\ SameCell(o.x, a.x) /\ SameCell(o.y, a.y)
       /\ SlotBorder(o.t) \/ SlotOf(o.t) = SlotOf(a.t)
       /\ o.d <= s.d + Metres(a.cost) + 20 + a.cost \div 50000
(* the cheapest state that is open is looked at next; c is what an entry promises in total *)
Cheapest(e) ==
  LET me == Ent(e).c Open(f) == ~\E m \in f[1] + 1 .. i : K.ops[m].s.id = Ent(f).id IN
  \A f \in Entries(i) : Ent(f).c < me - 2 => ~Open(f) \/ Latest(Ent(f).id, i) # f
(* the 1.2th power of whole numbers of cells, in thousandths, and what lies between (lengths in 10^-5 cells) *)
POWER == <<0, 1000, 2297, 3737, 5278, 6899, 8586, 10330, 12126, 13967, 15849, 17769, 19725, 21714, 23733, 25782, 27858, 29960, 32087, 34238, 36411, 38607, 40823, 43060, 45316, 47591, 49885, 52196, 54524, 56869, 59231, 61608, 64000, 66407, 68830, 71266, 73716, 76180, 78658, 81148, 83651, 86167, 88695, 91235, 93787, 96351, 98926, 101512, 104109, 106717, 109336, 111965, 114605, 117255, 119915, 122584, 125264, 127953, 130651, 133359, 136076, 138802, 141537, 144281, 147033, 149795, 152564, 155342, 158129, 160923, 163726, 166537, 169355, 172182, 175016, 177858, 180708, 183565, 186429, 189301, 192180, 195066, 197960, 200860, 203768, 206682, 209603, 212531, 215466, 218408, 221356, 224311, 227272, 230239, 233213, 236194, 239180, 242173, 245172, 248177, 251189, 254206, 257229, 260258, 263293, 266334, 269381, 272434, 275492, 278556, 281625, 284700, 287781, 290867, 293958, 297055, 300158, 303266, 306379, 309497, 312621, 315749, 318883, 322022, 325167, 328316, 331470, 334630, 337794, 340963, 344138>>
Over(d) == LET k == (Min(d, 129 * CELL)) \div CELL r == (Min(d, 129 * CELL)) % CELL IN 100 * POWER[k + 1] + ((r \div 100) * (POWER[k + 2] - POWER[k + 1])) \div 10
(* what is promised: the cost so far and, as the crow flies, the way from the cell (or the pose it was in) to the goal *)
Promise(o) ==
  LET far == Metres(Hypot(o.x - G0.x * CELL, o.y - G0.y * CELL)) slack == Metres(3 * CELL) + 20 IN
  CASE K.guide = "none" -> Abs(o.c - o.d) <= 2
    [] K.guide = "L2" -> Abs(o.c - o.d - far) <= slack
    [] K.guide = "over" -> LET d == Hypot(o.x - G0.x * CELL, o.y - G0.y * CELL) IN
         d < 125 * CELL => o.c - o.d <= Metres(Over(d + 3 * CELL)) + 200 /\ o.c - o.d >= Metres(Over(Max(0, d - 3 * CELL))) - 200
    [] OTHER -> /\ o.c - o.d >= far - slack \/ (far < 100000 /\ o.c >= o.d - 2)
                /\ o.c < 2000000000 /\ o.h < 2000000000 => Abs(o.c - o.d - o.h) <= Metres(2 * CELL)
Last == i + 1 = Len(K.ops)
Ok ==
  LET s == Op.s A == TLCEval(Successors(V, s)) e == TLCEval(Latest(s.id, i)) seen == TLCEval(GoalSeen) IN
  /\ i = 0 => K.code = 0 /\ \A k \in DOMAIN K.starts : StartOk(K.starts[k])
  /\ i = 0 => \E k, m \in DOMAIN K.starts : K.starts[k].f /\ ~K.starts[m].f
  /\ Same(s, Ent(e))
  /\ GoalsOk
  /\ Cheapest(e)
  /\ seen = "yes" => Last /\ ~K.cut /\ K.path # <<>>
  /\ seen = "no" /\ Last /\ ~K.cut => K.path = <<>>
  /\ Last /\ K.path # <<>> /\ ~K.cut => Op.adds = <<>> /\ K.path[Len(K.path)].id = s.id
  /\ \A k \in DOMAIN Op.adds : AddOk(s, A, Op.adds[k]) /\ Promise(Op.adds[k])
  /\ ~(Last /\ (K.path # <<>> \/ K.cut)) => \A a \in A : Clear(M, s, a) => Known(s, a)
(* one motion primitive apart, exactly so unless the earlier state was improved since *)
DriveBy(p, q, s, m) ==
  LET special == V.k = "D" /\ ~V.rev /\ p.dep = 0 /\ ~q.f
      a == TLCEval(Leads(V, s, m))
      len == IF special THEN BaseLen(V) ELSE StepLen(V)
      exact == p.at < q.at
      tol == IF exact THEN 30 ELSE CELL + 30 + MulF(len, (ONE \div 32) * 7) IN
  /\ q.d >= p.d + Metres(a.cost) - 20 - a.cost \div 50000
  /\ exact => q.d <= p.d + Metres(a.cost) + 20 + a.cost \div 50000
  /\ Abs(q.x - a.x) <= tol /\ Abs(q.y - a.y) <= tol
  /\ Apart(q.t, a.t) <= IF exact THEN 20 ELSE SlotWidth + 20
Drive(p, q) ==
  LET s == [x |-> p.x, y |-> p.y, t |-> p.t, st |-> p.st, f |-> p.f, cu |-> p.cu, first |-> Fresh(p), hist |-> <<>>]
      exact == p.at < q.at
      turns == IF V.k # "N" THEN {q.st} ELSE IF Fresh(p) \/ q.f # p.f \/ (exact /\ p.cu > 0) THEN {0} ELSE {0 - 2, 0, 2} \cup (IF V.half THEN {0 - 1, 1} ELSE {}) IN
  /\ Abs(q.st) <= V.max /\ q.f \in V.dirs
  /\ q.f # p.f => q.st = 0 /\ (V.k = "N" \/ p.dep > 0)
  /\ exact => Abs(q.st - p.st) <= V.steps * V.delta
  /\ \E st \in turns : DriveBy(p, q, s, <<q.f, st>>)
  /\ ~Occupied([x |-> q.x \div CELL, y |-> q.y \div CELL])
  /\ ~Off([x |-> q.x \div CELL, y |-> q.y \div CELL])
P == K.path
PathOk == P # <<>> =>
  /\ StartOk(P[1])
  /\ \A n \in 1 .. Len(P) - 1 : Drive(P[n], P[n + 1])
Chain == ~K.cut => \A n \in DOMAIN P : LET e == Latest(P[n].id, Len(K.ops)) IN
  /\ Same(P[n], Ent(e))
  /\ IF n = 1 THEN e[1] = 0 ELSE e[1] > 0 /\ K.ops[e[1]].s.id = P[n - 1].id
(* nothing is left to look at when no path is found *)
Exhausted == P = <<>> /\ ~K.cut /\ ~K.aborted => \A e \in Entries(Len(K.ops)) :
  LET id == Ent(e).id f == Latest(id, Len(K.ops)) IN \E m \in f[1] + 1 .. Len(K.ops) : K.ops[m].s.id = id
End == /\ K.code = 0 => PathOk /\ Chain /\ Exhausted
       /\ K.code # 0 => P = <<>> /\ K.ops = <<>>
       /\ K.code = Code
       /\ K.same
Next == \/ i < Len(K.ops) /\ Ok = TRUE /\ i' = i + 1 /\ UNCHANGED c
        \/ i = Len(K.ops) /\ End = TRUE /\ UNCHANGED vars
=============================================================================
