------------------------------ MODULE MapFrameMC ----------------------------
(* Design model: the half-open cells tile the plane, and centres convert back.     *)
EXTENDS MapFrame
VARIABLES f, px, py
Frames == { [w |-> 3, h |-> 2, R |-> r, C |-> p[1], S |-> p[2], H |-> p[3], O |-> o, exact |-> TRUE] :
            r \in {1, 3, 4}, p \in {<<1,0,1>>, <<0,1,1>>, <<3,4,5>>, <<-4,3,5>>}, o \in {<<0,0>>, <<-3,2>>} }
Init == f \in Frames /\ px \in -12 .. 12 /\ py \in -12 .. 12
Next == FALSE /\ UNCHANGED <<f, px, py>>
OneCell == \A x \in CellsOf(f, NX(f, px, py)) : x * D(f) <= NX(f, px, py) /\ NX(f, px, py) < (x + 1) * D(f)
(* the centre of every cell, scaled, lies in that cell: with the lattice refined by 2H *)
Fine == [f EXCEPT !.R = 2 * f.H * f.R, !.O = <<2 * f.H * f.O[1], 2 * f.H * f.O[2]>>]
Centres == \A x \in -1 .. 3, y \in -1 .. 2 :
             NX(Fine, CentreX(f, x, y), CentreY(f, x, y)) \div D(Fine) = x /\ NY(Fine, CentreX(f, x, y), CentreY(f, x, y)) \div D(Fine) = y
=============================================================================
