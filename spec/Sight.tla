------------------------------- MODULE Sight --------------------------------
(* Line-of-sight queries over a map.  Cells are 0 free, 128 unknown, 255 occupied, *)
(* 3 free for headings within 45 degrees of east and occupied otherwise.           *)
(* Positions are in eighths of a cell.                                             *)
EXTENDS Raster
Floor8(a) == a \div 8
(* the rasterised line from s to e without s, as a sequence: the error-accumulating walk *)
RECURSIVE LineSeq(_, _, _, _, _, _)
LineSeq(p, e, err, dx, dy, acc) ==
  IF p = e THEN acc
  ELSE LET mx == 2 * err > dy my == 2 * err < dx
           q == <<p[1] + (IF mx THEN Sgn(e[1] - p[1]) ELSE 0), p[2] + (IF my THEN Sgn(e[2] - p[2]) ELSE 0)>>
       IN LineSeq(q, e, err + (IF mx THEN dy ELSE 0) + (IF my THEN dx ELSE 0), dx, dy, Append(acc, q))
Line(s, e) == LET dx == Abs(e[1] - s[1]) dy == -Abs(e[2] - s[2]) IN LineSeq(s, e, dx + dy, dx, dy, <<>>)

In(m, c) == c[1] >= 0 /\ c[2] >= 0 /\ c[1] < m.w /\ c[2] < m.h
Val(m, c) == m.v[1 + c[2] * m.w + c[1]]
FreeAt(m, c, east) == In(m, c) /\ (Val(m, c) = 0 \/ (Val(m, c) = 3 /\ east))
OccAt(m, c, east) == In(m, c) /\ (Val(m, c) = 255 \/ (Val(m, c) = 3 /\ ~east))
East(dx, dy) == (dx = 0 /\ dy = 0) \/ Abs(dy) < dx

(* exact query: all cells of the line after the first *)
ExactFree(m, L, east) == \A k \in 1 .. Len(L) : FreeAt(m, L[k], east)
ExactNotOcc(m, L, east) == \A k \in 1 .. Len(L) : ~OccAt(m, L[k], east)

(* a query that may leave out up to K cells in a row but looks at the end: which answers to   *)
(* "are all cells good" can it give?  good is a sequence of booleans along the line           *)
RunOfBad(good, n) == \E a \in 1 .. Len(good) : a + n - 1 <= Len(good) /\ \A b \in a .. a + n - 1 : ~good[b]
MaySay(good, endgood, K, ans) == IF ans THEN endgood /\ ~RunOfBad(good, K + 1)
                                 ELSE ~endgood \/ \E a \in 1 .. Len(good) : ~good[a]
=============================================================================
