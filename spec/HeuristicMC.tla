----------------------------- MODULE HeuristicMC ----------------------------
(* Design of the obstacle field: sweeps forward and backward over the inner cells until nothing   *)
(* changes.  Over all maps of a small size: the sweeps end, the result is the shortest distance    *)
(* over inner cells, it is the true shortest distance if the border is closed, and it is never     *)
(* below it, and with a closed border it is a consistent heuristic.                               *)
EXTENDS Heuristic
CONSTANTS W, HH
VARIABLES M, g, d, dir, at, changed, rounds
vars == <<M, g, d, dir, at, changed, rounds>>
Order(dr) == LET I == (1 .. W - 2) \X (1 .. HH - 2) IN I
Count == (W - 2) * (HH - 2)
CellNo(dr, k) == LET q == IF dr = 1 THEN k - 1 ELSE Count - k IN <<1 + (q % (W - 2)), 1 + (q \div (W - 2))>>
Behind(dr) == IF dr = 1 THEN {<<-1, 0>>, <<-1, -1>>, <<0, -1>>, <<1, -1>>} ELSE {<<1, 0>>, <<-1, 1>>, <<0, 1>>, <<1, 1>>}
Blocked(c) == Cell(M, c[1], c[2]) = 1 /\ c # g
Init == /\ \E cs \in [1 .. Count -> {0, 1}], border \in {0, 1} :
             M = [w |-> W, h |-> HH, cells |-> [k \in 1 .. W * HH |->
                   LET x == (k - 1) % W y == (k - 1) \div W IN
                   IF x = 0 \/ y = 0 \/ x = W - 1 \/ y = HH - 1 THEN border ELSE cs[x + (y - 1) * (W - 2)]]]
        /\ g \in (0 .. W - 1) \X (0 .. HH - 1)
        /\ d = [c \in (0 .. W - 1) \X (0 .. HH - 1) |-> IF c = g THEN 0 ELSE INF]
        /\ dir = 1 /\ at = 1 /\ changed = FALSE /\ rounds = 0
Sum(a, b) == IF a = INF THEN INF ELSE a + b
New(c) == SetMin({d[c]} \cup { Sum(d[<<c[1] + o[1], c[2] + o[2]>>], StepCost(FIELD, o[1], o[2])) : o \in { o2 \in Behind(dir) : ~Blocked(<<c[1] + o2[1], c[2] + o2[2]>>) } })
Sweep == /\ at <= Count /\ dir # 0
         /\ LET c == CellNo(dir, at) v == IF Blocked(c) THEN d[c] ELSE New(c) IN
              /\ d' = [d EXCEPT ![c] = v]
              /\ changed' = (changed \/ v # d[c])
         /\ at' = at + 1 /\ UNCHANGED <<M, g, dir, rounds>>
Turn == /\ at > Count /\ dir = 1 /\ dir' = 2 /\ at' = 1 /\ UNCHANGED <<M, g, d, changed, rounds>>
Again == /\ at > Count /\ dir = 2 /\ changed /\ dir' = 1 /\ at' = 1 /\ changed' = FALSE /\ rounds' = rounds + 1 /\ UNCHANGED <<M, g, d>>
Stop == /\ at > Count /\ dir = 2 /\ ~changed /\ dir' = 0 /\ UNCHANGED <<M, g, d, at, changed, rounds>>
Next == Sweep \/ Turn \/ Again \/ Stop \/ (dir = 0 /\ UNCHANGED vars)
Terminates == rounds <= W * HH
InnerD == Distances(FIELD, Inner(M), g)
TrueD == Distances(FIELD, M, g)
Closed == \A c \in Cells(M) : Ring(M, c[1], c[2]) => Cell(M, c[1], c[2]) = 1
Exact == dir = 0 => d = InnerD
NeverBelow == dir = 0 => \A c \in Cells(M) : d[c] >= TrueD[c]
Shortest == (dir = 0 /\ Closed) => \A c \in Cells(M) : (~Blocked(c) => d[c] = TrueD[c])
=============================================================================
