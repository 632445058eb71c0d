------------------------------ MODULE Footprint ------------------------------
(* A rectangle that turns with the vehicle, against cells: along and across are    *)
(* the offset of a cell in the frame of the vehicle, all in one unit; m is the      *)
(* margin that whole cells, sampling and discrete headings leave undecided.         *)
EXTENDS Integers
AbsF(x) == IF x < 0 THEN 0 - x ELSE x
Deep(along, across, back, front, half, m) == along >= back + m /\ along <= front - m /\ AbsF(across) <= half - m
Near(along, across, back, front, half, m) == along >= back - m /\ along <= front + m /\ AbsF(across) <= half + m
=============================================================================
