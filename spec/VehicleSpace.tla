---------------------------- MODULE VehicleSpace ----------------------------
(* Vehicles among obstacles: when a move is surely blocked or surely free, and when  *)
(* a state has reached a goal.                                                       *)
(*  map: w, h (cells), pad (cells of padding), skip (cells a line check may leave     *)
(*  out), b (blocks of occupied cells <<x0, y0, x1, y1>>, all included)               *)
EXTENDS Vehicle
CELL == 100000
Fits(o, a) ==
  /\ o.f = a.f /\ o.st = a.st /\ o.cu = a.cu
  /\ Abs(o.x - a.x) <= 30 /\ Abs(o.y - a.y) <= 30 /\ Apart(o.t, a.t) <= 20
In(b, x, y, m) == x >= b[1] * CELL + m /\ x <= (b[3] + 1) * CELL - m /\ y >= b[2] * CELL + m /\ y <= (b[4] + 1) * CELL - m
Meets(b, x0, y0, x1, y1, m) == /\ Max(x0, x1) >= b[1] * CELL - m /\ Min(x0, x1) <= (b[3] + 1) * CELL + m
                               /\ Max(y0, y1) >= b[2] * CELL - m /\ Min(y0, y1) <= (b[4] + 1) * CELL + m
Part16(x0, x1, n) == x0 + ((x1 - x0) \div 16) * n
(* a line into the block, or so long within it that a check cannot miss it; without  *)
(* padding the cell the vehicle already is in is not looked at                       *)
Hit(map, b, s, a) ==
  \/ In(b, a.x, a.y, 50) /\ (map.pad > 0 \/ ~In(b, s.x, s.y, 0 - 50))
  \/ LET T == {n \in 0 .. 16 : In(b, Part16(s.x, a.x, n), Part16(s.y, a.y, n), CELL)} IN
     T # {} /\ LET lo == CHOOSE n \in T : \A m \in T : n <= m
                   hi == CHOOSE n \in T : \A m \in T : n >= m IN
               (hi - lo) * (Max(Abs(a.x - s.x), Abs(a.y - s.y)) \div 16) >= (map.skip + 2) * CELL
Bounded(map, x, y, m) == LET p == map.pad IN x >= m - p * CELL /\ y >= m - p * CELL /\ x <= (map.w + p) * CELL - m /\ y <= (map.h + p) * CELL - m
Blocked(map, s, a) == ~Bounded(map, a.x, a.y, 0 - 50) \/ \E n \in DOMAIN map.b : Hit(map, map.b[n], s, a)
Clear(map, s, a) == Bounded(map, a.x, a.y, 50) /\ \A n \in DOMAIN map.b : ~Meets(map.b[n], s.x, s.y, a.x, a.y, CELL + 50)

(* Has state r, reached from pv (<<x, y>>, or <<>>), reached g?  "?" next to a threshold. *)
(* Lengths in millimetres. *)
MM(v, x) == ((x \div 1000) * v.res) \div 10 + (((x % 1000) * v.res) \div 10000)
Below(d, limit, tol) == IF d < limit - tol THEN "yes" ELSE IF d > limit + tol THEN "no" ELSE "?"
Both(a, b) == IF a = "no" \/ b = "no" THEN "no" ELSE IF a = "yes" /\ b = "yes" THEN "yes" ELSE "?"
Either(a, b) == IF a = "yes" \/ b = "yes" THEN "yes" ELSE IF a = "no" /\ b = "no" THEN "no" ELSE "?"
LineDist(v, p, r, g) ==
  LET ax == MM(v, r[1] - p[1]) ay == MM(v, r[2] - p[2]) bx == MM(v, g[1] - p[1]) by == MM(v, g[2] - p[2])
      l2 == ax * ax + ay * ay dot == ax * bx + ay * by IN
  IF l2 = 0 \/ dot <= 0 THEN Hypot(bx, by)
  ELSE IF dot >= l2 THEN Hypot(bx - ax, by - ay)
  ELSE Abs(ax * by - ay * bx) \div Hypot(ax, ay)
Near(v, g, r, pv) ==
  LET d == Hypot(g[1] - r.x, g[2] - r.y) IN
  IF v.k = "D" THEN Below(MM(v, d), v.gdist, 2)
  ELSE IF d > 20 * CELL + 2 * StepLen(v) THEN "no"
  ELSE Either(Below(MM(v, d), 50, 2),
              IF pv = <<>> THEN "no" ELSE Below(LineDist(v, pv, <<r.x, r.y>>, g), 100, 4))
Reached(v, g, r, pv) ==
  LET turn == Apart(g.t, r.t) IN
  IF v.k = "N" THEN Both(Below(turn, PI \div 8, 3), Both(Below(Abs(g.x - r.x), StepLen(v) \div 2, 3), Below(Abs(g.y - r.y), StepLen(v) \div 2, 3)))
  ELSE LET back == v.k = "S" /\ v.rev /\ ~r.f
           e == IF back THEN Straight(g.x, g.y, g.t, 0 - BaseLen(v)) ELSE <<g.x, g.y>> IN
       IF v.k = "S" /\ v.rev /\ r.cu > 0 THEN "no"
       ELSE Both(Below(turn, v.gturn, 3), Near(v, e, r, pv))
=============================================================================
