------------------------------ MODULE Heuristic -----------------------------
(* Heuristic values in units of 10^-5 cells.                                    *)
EXTENDS GridSearch
L2(dx, dy) == Sqrt5(dx * dx + dy * dy)
L1(dx, dy) == (Abs(dx) + Abs(dy)) * UNIT
LInf(dx, dy) == Max(Abs(dx), Abs(dy)) * UNIT
(* a is the integer part of f times the 1.2-th power of sqrt(n): a^5 <= f^5 n^3 < (a+1)^5, all below 2^31 *)
P5(a) == a * a * a * a * a
FloorPow(a, f, n) == a >= 0 /\ a < 73 /\ P5(a) <= P5(f) * n * n * n /\ P5(a + 1) > P5(f) * n * n * n

(* obstacle field of the map with PAD free cells around it; unknown cells can be passed *)
Ext(w, h, pad, cells) == LET W == w + 2 * pad H2 == h + 2 * pad IN
  [w |-> W, h |-> H2, cells |-> [k \in 1 .. W * H2 |-> LET x == ((k - 1) % W) - pad y == ((k - 1) \div W) - pad IN
                                 IF x >= 0 /\ y >= 0 /\ x < w /\ y < h /\ cells[1 + y * w + x] = 1 THEN 1 ELSE 0]]
Ring(M, x, y) == x = 0 \/ y = 0 \/ x = M.w - 1 \/ y = M.h - 1
(* the same without the outermost cells *)
Inner(M) == [M EXCEPT !.cells = [k \in 1 .. M.w * M.h |-> IF Ring(M, (k - 1) % M.w, (k - 1) \div M.w) THEN 1 ELSE M.cells[k]]]
FIELD == <<0, 8, 1, 1>>
=============================================================================
