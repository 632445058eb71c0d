------------------------------- MODULE Curves -------------------------------
(* Curves of circular arcs and lines between two poses, spelled by words.  Lengths  *)
(* in 10^-5 cells, angles in 10^-7 rad, costs in quarters, weights in 10^-3 cells.   *)
EXTENDS Trig
CELL == 100000

(* ---- words ---- *)
(* state of the parser: ok, inside parentheses, driving direction, segments so far *)
Seg(t, d) == [t |-> t, d |-> d]
Turned(d) == IF d = "f" THEN "b" ELSE "f"
ParseStep(s, ch) ==
  IF ~s.ok THEN s
  ELSE IF s.sub THEN
    CASE ch = "b" -> [s EXCEPT !.ok = Len(s.segs) > 0 /\ s.segs[Len(s.segs)].t # "S"]
      [] ch = "p" -> s
      [] ch = ")" -> [s EXCEPT !.sub = FALSE]
      [] OTHER -> [s EXCEPT !.ok = FALSE]
  ELSE
    CASE ch = "(" -> [s EXCEPT !.sub = TRUE]
      [] ch = "|" -> [s EXCEPT !.d = Turned(s.d)]
      [] ch \in {"S", "L", "R"} -> [s EXCEPT !.segs = Append(s.segs, Seg(ch, s.d))]
      [] OTHER -> [s EXCEPT !.ok = FALSE]
ParseAll(w) == Fold(ParseStep, [ok |-> TRUE, sub |-> FALSE, d |-> "f", segs |-> <<>>], w)
Parse(w) == LET p == ParseAll(w) IN [ok |-> p.ok /\ ~p.sub, segs |-> p.segs]

(* ---- arithmetic ---- *)
RECURSIVE DivStep(_, _, _, _)
DivStep(a, b, q, k) == IF k = 0 THEN q ELSE LET m == a * 128 IN DivStep(m % b, b, q * 128 + m \div b, k - 1)
(* a / b in units of 2^-28, 0 <= a <= b < 2^24 *)
Div(a, b) == IF a = b THEN ONE ELSE DivStep(a, b, 0, 4)
SqrtStep(v, y, n) == LET t == y + (ONE \div (2 * n)) IN IF MulFpos(t, t) <= v THEN t ELSE y
Sqrt28(v) == IF v >= ONE THEN ONE ELSE Fold(LAMBDA y, n : SqrtStep(v, y, n), 0, TWO)
(* arc cosine of a / b, -b <= a <= b *)
Acos(a, b) == LET q == Div(Abs(a), b) s == Sqrt28(MulFpos(ONE - q, (ONE + q) \div 2) * 2) IN Atan2(s \div 8, Sgn(a) * (q \div 8))

(* ---- curves ---- *)
(* left of the heading, or right of it *)
Side(t) == IF t = "L" THEN HALF ELSE 0 - HALF
Centre(P, t, r) == Polar(P[1], P[2], r, P[3] + Side(t))
(* the angle, seen from the centre, of the point of the circle passed with heading h *)
AngleFor(h, t) == h - Side(t)
(* sense in which a circle is driven *)
Sense(s) == IF (s.t = "L") = (s.d = "f") THEN 1 ELSE 0 - 1
(* arcs shorter than what rounding can tell from nothing (10^-5 rad) have length zero; e is the error of *)
(* the angles here; alt says how to read arcs that may be just short or just long of a full turn          *)
SNAP == 100
ArcFrom(a0, a1, sgn, e, alt) ==
  LET l == Norm(sgn * (a1 - a0)) z == Min(l, TURN - l) IN
  IF z + e < SNAP THEN 0 ELSE IF z - e > SNAP THEN l
  ELSE IF alt = "zero" THEN 0 ELSE IF l < PI THEN TURN ELSE l
Unclear(a0, a1, e) == LET l == Norm(a1 - a0) z == Min(l, TURN - l) IN ~(z + e < SNAP) /\ ~(z - e > SNAP)
Arc(s, c, a0, a1, e, alt) == [t |-> s.t, d |-> s.d, x |-> c[1], y |-> c[2], a |-> Norm(a0), sgn |-> Sense(s), turn |-> ArcFrom(a0, a1, Sense(s), e, alt), u |-> Unclear(a0, a1, e), th |-> 0, len |-> 0]
Line(s, p, q, h) == [t |-> "S", d |-> s.d, x |-> p[1], y |-> p[2], a |-> 0, sgn |-> 0, turn |-> 0, u |-> FALSE, th |-> h, len |-> Hypot(q[1] - p[1], q[2] - p[2])]
(* error of an angle between points whose coordinates are off by 2, and of an arc cosine of such a distance *)
AngErr(D) == 20 + 20000000 \div Max(D, 1)
CosErr(D, ga, r) == Min(300000, 2 * AngErr(D) * (1 + HALF \div Max(Min(ga, PI - ga), 60)) + 20000000 \div r)
(* how sure it is that a solution exists: 0 no, 1 perhaps, 2 yes *)
AtLeast(a, b, e) == IF a >= b + e THEN 2 ELSE IF a < b - e THEN 0 ELSE 1
Sol(st, e, segs) == [st |-> IF st = 2 /\ \E k \in DOMAIN segs : segs[k].u THEN 1 ELSE st, e |-> e, segs |-> segs]
CSC(W, A, B, r, alt) ==
  LET s == TLCEval(Centre(A, W[1].t, r)) g == TLCEval(Centre(B, W[3].t, r))
      dx == g[1] - s[1] dy == g[2] - s[2]
      D == TLCEval(Hypot(dx, dy)) th == TLCEval(Atan2(dy, dx))
      back == IF W[2].d = "b" THEN PI ELSE 0
      e == AngErr(D)
      a0 == AngleFor(A[3], W[1].t) a3 == AngleFor(B[3], W[3].t)
  IN IF W[1].t = W[3].t
     THEN IF D < 10 THEN <<>>
          ELSE LET h == th - back
                   k == AngleFor(h, W[1].t)
                   p == TLCEval(Polar(s[1], s[2], r, k)) q == TLCEval(Polar(g[1], g[2], r, k))
               IN <<Sol(2, e, <<Arc(W[1], s, a0, k, e, alt), Line(W[2], p, q, h), Arc(W[3], g, k, a3, e, alt)>>)>>
     ELSE LET st == AtLeast(D, 2 * r, 20) IN
          IF st = 0 THEN <<>>
          ELSE LET ga == TLCEval(Acos(Min(2 * r, D), D))
                   sg == IF (W[1].t = "R") = (back = 0) THEN 1 ELSE 0 - 1
                   k == th + sg * ga
                   p == TLCEval(Polar(s[1], s[2], r, k)) q == TLCEval(Polar(g[1], g[2], r, k + PI))
                   ee == TLCEval(CosErr(D, ga, r))
               IN <<Sol(st, ee, <<Arc(W[1], s, a0, k, ee, alt), Line(W[2], p, q, k + Side(W[1].t)), Arc(W[3], g, k + PI, a3, ee, alt)>>)>>
Alternate(W) == \A k \in 1 .. Len(W) - 1 : W[k].t # W[k + 1].t
C3(W, A, B, r, alt) ==
  LET s == TLCEval(Centre(A, W[1].t, r)) g == TLCEval(Centre(B, W[3].t, r))
      dx == g[1] - s[1] dy == g[2] - s[2]
      D == TLCEval(Hypot(dx, dy)) th == TLCEval(Atan2(dy, dx))
      st == Min(AtLeast(D, 2 * CELL, 5), AtLeast(4 * r, D, 20))
      ga == TLCEval(Acos(Min(D, 4 * r), 4 * r))
      e == TLCEval(CosErr(D, ga, r))
      Side1(sg) == LET k1 == th + sg * ga
                       C == TLCEval(Polar(s[1], s[2], 2 * r, k1))
                       k3 == TLCEval(Atan2(C[2] - g[2], C[1] - g[1]))
                   IN Sol(st, e, <<Arc(W[1], s, AngleFor(A[3], W[1].t), k1, e, alt), Arc(W[2], C, k1 + PI, k3 + PI, e, alt), Arc(W[3], g, k3, AngleFor(B[3], W[3].t), e, alt)>>)
  IN IF st = 0 \/ ~Alternate(W) THEN <<>> ELSE <<Side1(1), Side1(0 - 1)>>
C4(W, A, B, r, alt) ==
  LET s == TLCEval(Centre(A, W[1].t, r)) g == TLCEval(Centre(B, W[4].t, r))
      dx == g[1] - s[1] dy == g[2] - s[2]
      D == TLCEval(Hypot(dx, dy)) th == TLCEval(Atan2(dy, dx))
      st == Min(AtLeast(D, 2 * CELL, 5), AtLeast(6 * r, D, 20))
      c == Min(D, 6 * r) - 2 * r
      ga == TLCEval(Acos(c, 4 * r))
      e == TLCEval(CosErr(D, ga, r))
      Side1(sg) == LET k1 == th + sg * ga
                       C2 == TLCEval(Polar(s[1], s[2], 2 * r, k1))
                       C5 == TLCEval(Polar(C2[1], C2[2], 2 * r, th))
                       k4 == TLCEval(Atan2(C5[2] - g[2], C5[1] - g[1]))
                   IN Sol(st, e, <<Arc(W[1], s, AngleFor(A[3], W[1].t), k1, e, alt), Arc(W[2], C2, k1 + PI, th, e, alt),
                                     Arc(W[3], C5, th + PI, k4 + PI, e, alt), Arc(W[4], g, k4, AngleFor(B[3], W[4].t), e, alt)>>)
  IN IF st = 0 \/ ~Alternate(W) THEN <<>> ELSE <<Side1(1), Side1(0 - 1)>>
(* the ways in which a word joins pose A to pose B; poses less than two cells apart are not joined *)
Solve(W, A, B, r, alt) ==
  LET sh == AtLeast(Hypot(B[1] - A[1], B[2] - A[2]), 2 * CELL, 3)
      X == IF Len(W) = 3 /\ W[1].t # "S" /\ W[3].t # "S" THEN (IF W[2].t = "S" THEN CSC(W, A, B, r, alt) ELSE C3(W, A, B, r, alt))
           ELSE IF Len(W) = 4 /\ \A k \in 1 .. 4 : W[k].t # "S" THEN C4(W, A, B, r, alt) ELSE <<>>
  IN IF sh = 0 THEN <<>> ELSE [k \in DOMAIN X |-> [X[k] EXCEPT !.st = Min(@, sh)]]
Solutions(W, A, B, r) ==
  LET X == TLCEval(Solve(W, A, B, r, "zero")) IN
  IF \E k \in DOMAIN X : \E j \in DOMAIN X[k].segs : X[k].segs[j].u THEN X \o TLCEval(Solve(W, A, B, r, "long")) ELSE X

(* ---- weight: cost record K with f, b (directions), c, s (arcs, lines) in quarters ---- *)
LenOf(sg, r) == IF sg.t = "S" THEN sg.len ELSE ArcLen(r, sg.turn)
Factor(sg, K) == (IF sg.d = "f" THEN K.f ELSE K.b) * (IF sg.t = "S" THEN K.s ELSE K.c)
RECURSIVE Weight(_, _, _, _)
Weight(S, r, K, k) == IF k = 0 THEN 0 ELSE Weight(S, r, K, k - 1) + (LenOf(S[k], r) * Factor(S[k], K)) \div 1600
RECURSIVE Turns(_, _)
Turns(S, k) == IF k = 0 THEN 0 ELSE Turns(S, k - 1) + S[k].turn

(* ---- points of a curve ---- *)
HeadTo(sg) == IF sg.d = "f" THEN sg.th ELSE sg.th + PI           \* travel direction of a line
First(sg, r) == IF sg.t = "S" THEN <<sg.x, sg.y>> ELSE Polar(sg.x, sg.y, r, sg.a)
Last(sg, r) == IF sg.t = "S" THEN Polar(sg.x, sg.y, sg.len, HeadTo(sg)) ELSE Polar(sg.x, sg.y, r, sg.a + sg.sgn * sg.turn)
(* distance along the segment of a pose on it, at least from (less e); -1 if it is not on it *)
Along(sg, r, P, from, e, ea) ==
  IF sg.t = "S"
  THEN LET cs == CosSin(HeadTo(sg)) dx == P[1] - sg.x dy == P[2] - sg.y
           al == MulF(dx, cs[1]) + MulF(dy, cs[2]) off == MulF(dy, cs[1]) - MulF(dx, cs[2])
       IN IF Abs(off) <= e /\ al >= from - e /\ al <= sg.len + e /\ Apart(P[3], sg.th) <= ea THEN Max(al, 0) ELSE 0 - 1
  ELSE LET dx == P[1] - sg.x dy == P[2] - sg.y
           D == Hypot(dx, dy) A == Atan2(dy, dx)
           p == TLCEval(Norm(sg.sgn * (A - sg.a)))
           Q == {q \in {p, p - TURN, p + TURN} : q >= 0 - ea /\ q <= sg.turn + ea /\ ArcLen(r, Max(q, 0)) >= from - e}
       IN IF Abs(D - r) <= e /\ Apart(P[3], A + Side(sg.t)) <= ea /\ Q # {} THEN ArcLen(r, Max(CHOOSE q \in Q : \A z \in Q : q <= z, 0)) ELSE 0 - 1
(* walk: <<ok, segment, distance along it>> *)
RECURSIVE Visit(_, _, _, _, _, _, _, _)
Visit(S, r, P, j, from, gap, e, ea) ==
  IF j > Len(S) THEN <<FALSE, 0, 0, 0>>
  ELSE LET al == TLCEval(Along(S[j], r, P, from, e, ea)) IN
       IF al >= 0 THEN <<TRUE, j, al, gap + al - from>>
       ELSE Visit(S, r, P, j + 1, 0, gap + LenOf(S[j], r) - from, e, ea)
(* poses of an iteration: from the start to the end of the curve, all on it, in order, no further apart than maxd *)
IterStep(S, r, maxd, e, ea, s, P) ==
  IF ~s[1] THEN s ELSE LET v == TLCEval(Visit(S, r, P, s[2], s[3], 0, e, ea)) IN
  IF v[1] /\ v[4] <= maxd + 3 * e THEN <<TRUE, v[2], v[3]>> ELSE <<FALSE, v[2], v[4]>>
Iteration(S, r, poses, maxd, A, B, e, ea) ==
  /\ Len(poses) > 0
  /\ Hypot(poses[1][1] - A[1], poses[1][2] - A[2]) <= e /\ Apart(poses[1][3], A[3]) <= ea
  /\ LET z == poses[Len(poses)] IN Hypot(z[1] - B[1], z[2] - B[2]) <= e /\ Apart(z[3], B[3]) <= ea
  /\ LET f == TLCEval(Fold(LAMBDA s, P : IterStep(S, r, maxd, e, ea, s, P), <<TRUE, 1, 0>>, poses)) IN
     f[1] /\ LET left == LenOf(S[f[2]], r) - f[3] IN left <= 2 * e /\ \A k \in f[2] + 1 .. Len(S) : LenOf(S[k], r) <= e

(* ---- obstacles: discs <<x, y, radius>> of cells that are not free, in a w x h map ---- *)
(* walls <<axis, k>>: all cells with x = k (axis 1) or y = k (axis 2).                 *)
(* circles are looked at with whole-cell centres and radii, lines with whole-cell ends: *)
(* what is four (two and a half) cells off is certain; an arc of less than a cell may run *)
(* over no cell of its raster at all, so that discs are certain to block only longer arcs *)
FUZZ == 4 * CELL
Hit(sg, r, depth) == IF sg.t = "S" THEN depth > (5 * CELL) \div 2 ELSE depth > 6 * CELL /\ r >= 2 * CELL /\ LenOf(sg, r) >= 4 * CELL
Fuzz(sg) == IF sg.t = "S" THEN (5 * CELL) \div 2 ELSE FUZZ
EndDist(sg, r, x, y) == LET p == First(sg, r) q == Last(sg, r) IN Min(Hypot(p[1] - x, p[2] - y), Hypot(q[1] - x, q[2] - y))
Dist(sg, r, x, y) ==
  IF sg.t = "S"
  THEN LET cs == CosSin(HeadTo(sg)) dx == x - sg.x dy == y - sg.y
           al == MulF(dx, cs[1]) + MulF(dy, cs[2])
       IN IF al >= 0 /\ al <= sg.len THEN Abs(MulF(dy, cs[1]) - MulF(dx, cs[2])) ELSE EndDist(sg, r, x, y)
  ELSE LET dx == x - sg.x dy == y - sg.y IN
       IF Norm(sg.sgn * (Atan2(dy, dx) - sg.a)) <= sg.turn THEN Abs(Hypot(dx, dy) - r) ELSE EndDist(sg, r, x, y)
(* points that bound a segment's extent *)
Extent(sg, r) == {First(sg, r), Last(sg, r)} \cup
  (IF sg.t = "S" THEN {} ELSE {Polar(sg.x, sg.y, r, a) : a \in {b \in {0, HALF, PI, 0 - HALF} : Norm(sg.sgn * (b - sg.a)) <= sg.turn}})
(* 2 free, 0 blocked, 1 cannot tell *)
FreeSeg(sg, r, w, h, discs, walls) ==
  LET E == TLCEval(Extent(sg, r))
      D == TLCEval([k \in DOMAIN discs |-> Dist(sg, r, discs[k][1], discs[k][2]) - discs[k][3]])
      out(q, m) == q[1] < 0 - m \/ q[2] < 0 - m \/ q[1] > w * CELL + m \/ q[2] > h * CELL + m
      below(wl) == \E q \in E : q[wl[1]] < wl[2] * CELL - FUZZ
      above(wl) == \E q \in E : q[wl[1]] > (wl[2] + 1) * CELL + FUZZ
      off(wl) == (\A q \in E : q[wl[1]] < wl[2] * CELL - FUZZ) \/ (\A q \in E : q[wl[1]] > (wl[2] + 1) * CELL + FUZZ)
  IN IF (\E q \in E : out(q, FUZZ)) \/ (\E k \in DOMAIN discs : Hit(sg, r, 0 - D[k])) \/ (\E k \in DOMAIN walls : below(walls[k]) /\ above(walls[k])) THEN 0
     ELSE IF (\A q \in E : ~out(q, 0 - FUZZ)) /\ (\A k \in DOMAIN discs : D[k] > Fuzz(sg)) /\ (\A k \in DOMAIN walls : off(walls[k])) THEN 2 ELSE 1
RECURSIVE Free(_, _, _, _, _, _, _)
Free(S, r, w, h, discs, walls, k) == IF k = 0 THEN 2 ELSE LET f == Free(S, r, w, h, discs, walls, k - 1) IN IF f = 0 THEN 0 ELSE Min(f, FreeSeg(S[k], r, w, h, discs, walls))
=============================================================================
