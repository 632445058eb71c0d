------------------------------ MODULE Discrete ------------------------------
(* Which places along a line or arc of length len are visited when it is cut into  *)
(* pieces of a resolution res.  A place is <<k, n>>: after k of n pieces.           *)
EXTENDS Integers, Sequences
Pieces(len, res) == len \div res
(* lines are cut at the multiples of the resolution, a remainder is left at the end of travel *)
LinePlaces(n, with) == [k \in 1 .. (IF with THEN n + 1 ELSE n) |-> IF with THEN k - 1 ELSE k]
(* points of a line: the multiples before the last one, and the end *)
LinePoints(n) == [k \in 1 .. n + 1 |-> k - 1]
(* arcs are cut into n equal pieces *)
ArcPlaces(n, with) == [k \in 1 .. (IF with THEN n + 1 ELSE n) |-> IF with THEN k - 1 ELSE k]
ArcPoints(n) == [k \in 1 .. n |-> k - 1]
=============================================================================
