----------------------------- MODULE FootprintMC -----------------------------
(* The design: the rectangle is sampled at steps of half a cell in both directions, *)
(* samples are truncated to cells.  All cells deep inside are sampled, none that is  *)
(* not near; in units of 1/10 cell, for whole directions <<p, q>> of length 5.       *)
EXTENDS Footprint, FiniteSets
CONSTANTS N, M
VARIABLES dir, front, back, half
Dirs == {<<5, 0>>, <<0, 5>>, <<0 - 5, 0>>, <<3, 4>>, <<0 - 4, 3>>, <<4, 0 - 3>>, <<0 - 3, 0 - 4>>}
Init == dir \in Dirs /\ front \in 1 .. N /\ back \in 0 - N .. 0 /\ half \in 1 .. N
Next == UNCHANGED <<dir, front, back, half>>
Trunc(x) == IF x >= 0 THEN x \div 10 ELSE 0 - ((0 - x) \div 10)
Samples == {<<Trunc(a * dir[1] - b * dir[2]), Trunc(a * dir[2] + b * dir[1])>> : a \in 2 * back .. 2 * front, b \in 0 - half .. half}
Cells == (0 - 2 * N .. 2 * N) \X (0 - 2 * N .. 2 * N)
(* offsets in 1/10: (x, y) . dir is in 1/5 of a cell *)
Along(c) == 2 * (c[1] * dir[1] + c[2] * dir[2])
Across(c) == 2 * (c[2] * dir[1] - c[1] * dir[2])
DesignOk == \A c \in Cells :
  /\ Deep(Along(c), Across(c), 10 * back, 10 * front, 5 * half, M) => c \in Samples
  /\ c \in Samples => Near(Along(c), Across(c), 10 * back, 10 * front, 5 * half, M)
=============================================================================
