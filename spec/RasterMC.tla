------------------------------- MODULE RasterMC -----------------------------
(* Design model: the error-accumulating line walk yields a Staircase for every    *)
(* pair of cells; the midpoint rows stay close to the ideal circle.               *)
EXTENDS Raster
CONSTANTS N, RMax
VARIABLES s, e, p, err, L
vars == <<s, e, p, err, L>>
DX == Abs(e[1] - s[1])
DY == -Abs(e[2] - s[2])
SX == IF s[1] < e[1] THEN 1 ELSE -1
SY == IF s[2] < e[2] THEN 1 ELSE -1
Init == /\ s = <<0, 0>> /\ e \in (-N .. N) \X (-N .. N) /\ p = s /\ err = DX + DY /\ L = <<>>
Step == /\ p # e
        /\ LET e2 == 2 * err mx == e2 > DY my == e2 < DX IN
           /\ err' = err + (IF mx THEN DY ELSE 0) + (IF my THEN DX ELSE 0)
           /\ p' = <<p[1] + (IF mx THEN SX ELSE 0), p[2] + (IF my THEN SY ELSE 0)>>
           /\ L' = Append(L, p')
        /\ UNCHANGED <<s, e>>
Stay == p = e /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Stay]_vars /\ WF_vars(Step)
Good == p = e => Staircase(s, e, L)
Ends == <>(p = e)
ASSUME \A r \in 1 .. RMax : LET R == Rows(r) IN \A k \in 1 .. r + 1 :
          \* within the first octant the rows are the rounded circle: closer to r^2 than the next row out or in
          k - 1 <= R[k] => LET d == (k-1)*(k-1) + R[k]*R[k] - r*r IN Abs(d) <= 2 * R[k] + 1
=============================================================================
