-------------------------------- MODULE GridMap -----------------------------
(* A grid map: size, cell values, thresholds.  m = [w, h, v, lo, up, ni]; v is a  *)
(* sequence in row-major order, ni = -1 means no particular no-information value. *)
EXTENDS Raster
InMap(m, x, y) == x >= 0 /\ y >= 0 /\ x < m.w /\ y < m.h
At(m, x, y) == m.v[1 + y * m.w + x]
NoInfoVal(m, v) == (m.ni # -1 /\ v = m.ni) \/ (v > m.lo /\ v < m.up)
FreeVal(m, v) == ~(m.ni # -1 /\ v = m.ni) /\ v <= m.lo
OccVal(m, v) == ~(m.ni # -1 /\ v = m.ni) /\ v >= m.up
(* with the lower threshold below the upper one every value is in exactly one class *)
Class(m, v) == (IF FreeVal(m, v) THEN 1 ELSE 0) + (IF OccVal(m, v) THEN 2 ELSE 0) + (IF NoInfoVal(m, v) THEN 4 ELSE 0)

SetAll(m, v) == [m EXCEPT !.v = [k \in 1 .. m.w * m.h |-> v]]
SetOne(m, x, y, v) == [m EXCEPT !.v[1 + y * m.w + x] = v]
SetData(m, w, h, v0, dv) == [m EXCEPT !.w = w, !.h = h, !.v = [k \in 1 .. w * h |-> (v0 + (k - 1) * dv) % 256]]
SetCells(m, S, f(_)) == [m EXCEPT !.v = [k \in 1 .. m.w * m.h |-> LET c == <<(k - 1) % m.w, (k - 1) \div m.w>> IN IF c \in S THEN f(c) ELSE m.v[k]]]

(* cells of an area that lie in the map *)
CircleCells(m, cx, cy, r16) == IF ~InMap(m, cx, cy) THEN {} ELSE { <<d[1] + cx, d[2] + cy>> : d \in Disc(r16) }
Clip(m, S) == { c \in S : InMap(m, c[1], c[2]) }
AllFree(m, S) == \A c \in Clip(m, S) : FreeVal(m, At(m, c[1], c[2]))
AllUnknown(m, S) == \A c \in Clip(m, S) : NoInfoVal(m, At(m, c[1], c[2]))
AnyOccupied(m, S) == \E c \in Clip(m, S) : OccVal(m, At(m, c[1], c[2]))
=============================================================================
