-------------------------------- MODULE Nodes -------------------------------
(* A search node.  Types: 0 plain, 1 heuristic, 2 heuristic with keys, 3 oriented,  *)
(* 4 oriented+heuristic, 5 steering+heuristic, 6 directional+steering+heuristic,     *)
(* 7 directional+oriented+heuristic, 8 steering.  Numbers are in 64ths.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
INF == 2000000000
HasH(t) == t \in {1, 2, 4, 5, 6, 7}
HasTheta(t) == t \in 3..8
HasSteer(t) == t \in {5, 6, 8}
HasDir(t) == t \in {6, 7}
Flags == {1, 2, 4, 8}
Bit(m, f) == (m \div f) % 2 = 1
Bits(m) == { f \in Flags : Bit(m, f) }
(* a type without an orientation of its own forgets the heading of the point it     *)
(* extends when it is put into a cell, and takes none over from a pose               *)
ANY == 1000000000
Fresh(x, y, theta, steer, forward) ==
   [x |-> x, y |-> y, theta |-> theta, dist |-> INF, marks |-> {}, h |-> 0, forward |-> forward, steer |-> steer, depth |-> 0, clean |-> TRUE]
InitXY(t, x, y) == Fresh(x, y, 0, 0, TRUE)
InitFull(t, x, y, th, st, fw) == Fresh(x, y, IF HasTheta(t) THEN th ELSE 0, IF t \in {5, 8} THEN st ELSE 0, IF HasDir(t) THEN fw ELSE TRUE)
InitPose(t, x, y, th) == Fresh(x, y, IF HasTheta(t) THEN th ELSE ANY, 0, TRUE)
Mark(n, m) == [n EXCEPT !.marks = @ \cup Bits(m)]
UnMark(n, m) == [n EXCEPT !.marks = @ \ Bits(m)]
Costs(t, n, g, h) == [n EXCEPT !.dist = g, !.h = IF HasH(t) THEN h ELSE 0]
Total(t, n) == IF n.dist = INF THEN INF ELSE n.dist + n.h
IsMarked(n, m) == Bits(m) \subseteq n.marks
Worse(t, a, b) == a > b
=============================================================================
