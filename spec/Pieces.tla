-------------------------------- MODULE Pieces ------------------------------
(* What a single piece of a curve costs to drive: the cells a line or an arc     *)
(* runs over, and the weight they amount to.  Positions in 1/16 of a cell,        *)
(* angles in 10^-7 radians, cost factors in quarters.                             *)
EXTENDS Trig, FiniteSets

InMap(M, p) == p[1] >= 0 /\ p[2] >= 0 /\ p[1] < M.w /\ p[2] < M.h
Value(M, p) == M.v[1 + p[2] * M.w + p[1]]
FREEBELOW == 50
FreeCell(M, p) == InMap(M, p) /\ Value(M, p) < FREEBELOW
Toll(M, p, min) == IF InMap(M, p) THEN Max(min, Value(M, p)) ELSE 0
Cell16(p) == <<p[1] \div 16, p[2] \div 16>>

(* ----------------------------------------------------------------- lines *)
(* the cells within half a cell of the ideal line at step k of the longer axis *)
LineSteps(s, e) == Max(Abs(e[1] - s[1]), Abs(e[2] - s[2]))
LineCells(s, e, k) ==
  LET dx == e[1] - s[1] dy == e[2] - s[2] n == LineSteps(s, e)
      xm == Abs(dx) >= Abs(dy)
      dm == IF xm THEN dx ELSE dy  dn == IF xm THEN dy ELSE dx
      Near(b) == IF n = 0 THEN b = 0 ELSE 2 * Abs((b * n) - (k * dn)) <= n
      mid == IF n = 0 THEN 0 ELSE (k * dn) \div n
  IN { IF xm THEN <<s[1] + k * Sgn(dm), s[2] + b>> ELSE <<s[1] + b, s[2] + k * Sgn(dm)>> : b \in { z \in mid - 1 .. mid + 1 : Near(z) } }
(* how a walk along the cells between s and e may end: <<least, greatest sum>>, and whether it may / must be blocked *)
LineSums(M, s, e, min) ==
  Fold(LAMBDA acc, k : LET T == { Toll(M, p, min) : p \in LineCells(s, e, k - 1) } IN
                       <<acc[1] + (CHOOSE a \in T : \A b \in T : a <= b), acc[2] + (CHOOSE a \in T : \A b \in T : a >= b)>>,
       <<0, 0>>, [k \in 1 .. LineSteps(s, e) + 1 |-> k])
LineMayPass(M, s, e) == \A k \in 0 .. LineSteps(s, e) : \E p \in LineCells(s, e, k) : FreeCell(M, p)
LineMayFail(M, s, e) == \E k \in 0 .. LineSteps(s, e) : \E p \in LineCells(s, e, k) : ~FreeCell(M, p)

(* ------------------------------------------------------------------ arcs *)
(* the rasterised circle of radius r around the origin: column of row y within the first octant *)
CircleX(r, y) == CHOOSE x \in 0 .. r : x * x + y * y < r * r + r /\ (x + 1) * (x + 1) + y * y >= r * r + r
Octant(r) == { <<CircleX(r, y), y>> : y \in { z \in 0 .. r : z <= CircleX(r, z) } }
Mirrors(p) == { <<a * p[1], b * p[2]>> : a, b \in {-1, 1} } \cup { <<a * p[2], b * p[1]>> : a, b \in {-1, 1} }
Circle(r) == UNION { Mirrors(p) : p \in Octant(r) }

(* the angle driven: sense +1 against the clock *)
Sense(left, back) == IF left # back THEN 1 ELSE -1
Swept(sense, a, b) == Norm(sense * (b - a))
MARGIN == 30
(* position of the direction of cell p along an arc that begins at angle a *)
Along(p, sense, a) == Norm(sense * (Atan2(p[2], p[1]) - a))
OnArc(p, sense, a, arc) == LET t == Along(p, sense, a) IN t >= MARGIN /\ t <= arc - MARGIN
NearEnd(p, sense, a, arc) == LET t == Along(p, sense, a) IN t <= MARGIN \/ t >= TURN - MARGIN \/ Abs(t - arc) <= MARGIN
(* cells of the arc: <<those certainly on it, those at its very ends>> *)
ArcCells(ctr, r, sense, a, arc) ==
  LET C == TLCEval(Circle(r))
      S == { p \in C : OnArc(p, sense, a, arc) /\ ~NearEnd(p, sense, a, arc) }
      E == { p \in C : NearEnd(p, sense, a, arc) }
      Sh(X) == { <<p[1] + ctr[1], p[2] + ctr[2]>> : p \in X }
  IN <<TLCEval(Sh(S)), TLCEval(Sh(E))>>
RECURSIVE Seq2(_)
Seq2(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : TRUE IN <<p>> \o Seq2(S \ {p})
TollSum(M, S, min) == Fold(LAMBDA acc, p : acc + Toll(M, p, min), 0, Seq2(S))
=============================================================================
