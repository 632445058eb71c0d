----------------------------- MODULE DiscreteMC -----------------------------
(* What the places promise, for all lengths and resolutions up to N: steps advance *)
(* by one piece from the start (or the first piece), stay within the shape, and     *)
(* what remains at the end of travel is less than a piece (line) or nothing (arc).  *)
EXTENDS Discrete
CONSTANT N
VARIABLES len, res
Init == len \in 0 .. N /\ res \in 1 .. N
Next == UNCHANGED <<len, res>>
n == Pieces(len, res)
Up(s) == \A k \in 1 .. Len(s) - 1 : s[k + 1] = s[k] + 1
LineOk == \A with \in BOOLEAN : LET s == LinePlaces(n, with) IN
  /\ Up(s) /\ (with => Len(s) > 0 /\ s[1] = 0) /\ (~with /\ Len(s) > 0 => s[1] = 1)
  /\ \A k \in 1 .. Len(s) : s[k] * res <= len
  /\ (Len(s) > 0 => len - s[Len(s)] * res < res)
  /\ (Len(s) = 0 => len < res)
PointsOk == LET s == LinePoints(n) IN Up(s) /\ s[1] = 0 /\ \A k \in 1 .. Len(s) - 1 : len - s[k] * res >= res
(* pieces of an arc are len / n long: at least res and less than two of it *)
ArcOk == (n > 0 => n * res <= len /\ len < 2 * n * res) /\
  \A with \in BOOLEAN : LET s == ArcPlaces(n, with) IN Up(s) /\ (with => s[1] = 0) /\ (Len(s) > 0 => s[Len(s)] = n) /\ (n > 0 /\ ~with => s[1] = 1)
=============================================================================
