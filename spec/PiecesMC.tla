------------------------------- MODULE PiecesMC -----------------------------
(* Design model of the piece costs: the incremental circle walk yields exactly    *)
(* the closed form of Pieces, every cell once; the cells of an arc and of the arc *)
(* that completes the circle share no cell but at the ends; an arc driven         *)
(* back costs the same; the line cells join the end cells.                         *)
EXTENDS Pieces
CONSTANTS RMax, AMax, N
VARIABLES r, x, y, err, seen, count
vars == <<r, x, y, err, seen, count>>
Init == r \in 1 .. RMax /\ x = r /\ y = 0 /\ err = -r /\ seen = {} /\ count = 0
New == Mirrors(<<x, y>>)
(* as many tests as the walk makes: no mirrored cell twice *)
Tests == IF y = 0 \/ x = y THEN 4 ELSE 8
Walk == /\ x >= y
        /\ seen' = seen \cup New /\ count' = count + Tests
        /\ y' = y + 1
        /\ LET e2 == err + 2 * y + 1 IN
           IF e2 >= 0 THEN x' = x - 1 /\ err' = e2 - 2 * x + 1 ELSE x' = x /\ err' = e2
        /\ UNCHANGED r
Stop == x < y /\ UNCHANGED vars
Spec == Init /\ [][Walk \/ Stop]_vars /\ WF_vars(Walk)
Ends == <>(x < y)
ErrOk == err = x * x + y * y - r * r - r
ColumnOk == x >= y => x = CircleX(r, y)
DoneOk == x < y => seen = Circle(r) /\ Cardinality(seen) = count
(* less than one cell from the ideal circle, and closed: every cell has two neighbours *)
ShapeOk == x < y => \A p \in seen : LET d == p[1] * p[1] + p[2] * p[2] IN
              /\ d < (r + 1) * (r + 1) /\ d > (r - 1) * (r - 1)
              /\ Cardinality({ q \in seen : q # p /\ Abs(q[1] - p[1]) <= 1 /\ Abs(q[2] - p[2]) <= 1 }) >= 2
Angle(k) == k * 5235987 + 700000
ArcsOk == x < y /\ r <= AMax => \A a, b \in 0 .. 11 : a # b =>
   LET A == Angle(a) B == Angle(b)
       f == ArcCells(<<0, 0>>, r, 1, A, Swept(1, A, B))
       g == ArcCells(<<0, 0>>, r, 1, B, Swept(1, B, A))
       h == ArcCells(<<0, 0>>, r, -1, B, Swept(-1, B, A))
   IN /\ f[1] \cap g[1] = {} /\ f[1] \cup g[1] \cup f[2] = Circle(r)
      /\ h = f
      /\ Abs(Swept(1, A, B) + Swept(1, B, A) - TURN) <= 1
ASSUME \A e \in (-N .. N) \X (-N .. N) : LET n == LineSteps(<<0, 0>>, e) IN
   /\ \A k \in 0 .. n : LET C == LineCells(<<0, 0>>, e, k) IN
        /\ Cardinality(C) \in 1 .. 2
        /\ LineCells(e, <<0, 0>>, n - k) = C
        /\ k < n => \A p \in C : \E q \in LineCells(<<0, 0>>, e, k + 1) : Abs(p[1] - q[1]) <= 1 /\ Abs(p[2] - q[2]) <= 1
   /\ LineCells(<<0, 0>>, e, 0) = {<<0, 0>>} /\ LineCells(<<0, 0>>, e, n) = {e}
=============================================================================
