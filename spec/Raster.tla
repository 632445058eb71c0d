-------------------------------- MODULE Raster ------------------------------
(* Rasterised lines and circles on the grid.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(a) == IF a < 0 THEN -a ELSE a
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Sgn(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0

(* L is a sequence of cells that follows s (s itself left out) and ends in e *)
Staircase(s, e, L) ==
  LET dx == e[1] - s[1] dy == e[2] - s[2]
      n == Max(Abs(dx), Abs(dy))
      major == IF Abs(dx) >= Abs(dy) THEN 1 ELSE 2     \* at a tie both advance
      P(k) == IF k = 0 THEN s ELSE L[k]
  IN /\ Len(L) = n
     /\ n > 0 => L[n] = e
     /\ \A k \in 1 .. n :
          /\ Abs(P(k)[1] - P(k-1)[1]) <= 1 /\ Abs(P(k)[2] - P(k-1)[2]) <= 1
          /\ P(k)[major] - P(k-1)[major] = (IF major = 1 THEN Sgn(dx) ELSE Sgn(dy))
          \* at most half a cell from the ideal line, along the minor axis
          /\ 2 * Abs((P(k)[1] - s[1]) * dy - (P(k)[2] - s[2]) * dx) <= n

(* midpoint circle: extent of the rows 0 .. r around the centre, as a sequence of r+1 numbers *)
RECURSIVE MidRows(_, _, _, _, _, _, _)
MidRows(r, x, y, f, ddx, ddy, acc) ==
  IF x >= r THEN acc
  ELSE LET y2 == IF f >= 0 THEN y - 1 ELSE y
           ddy2 == IF f >= 0 THEN ddy + 2 ELSE ddy
           f2 == IF f >= 0 THEN f + ddy2 ELSE f
           ddx2 == ddx + 2
       IN MidRows(r, x + 1, y2, f2 + ddx2, ddx2, ddy2, Append(acc, y2))
Rows(r) == MidRows(r, 0, r, 1 - r, 1, -2 * r, <<r>>)
(* cells of a circle of radius r16/16 cells around the origin *)
Disc(r16) == IF r16 <= 0 THEN {}
             ELSE IF r16 <= 16 THEN { <<0, 0>> }
             ELSE LET r == r16 \div 16 R == TLCEval(Rows(r)) IN
                  { c \in (-r .. r) \X (-r .. r) : Abs(c[1]) <= Abs(R[Abs(c[2]) + 1]) }
=============================================================================
