------------------------------ MODULE GridMapMC -----------------------------
(* Design model: writes and saved circles on a small map.                         *)
EXTENDS GridMap
CONSTANTS W, H, Vals, MaxOps
VARIABLES m, saved, orig, n
vars == <<m, saved, orig, n>>
None == [on |-> FALSE]
Init == m = [w |-> W, h |-> H, v |-> [k \in 1 .. W * H |-> 0], lo |-> 50, up |-> 200, ni |-> -1] /\ saved = None /\ orig = m /\ n = 0
Write == \E x \in 0 .. W-1, y \in 0 .. H-1, v \in Vals : m' = SetOne(m, x, y, v) /\ UNCHANGED <<saved, orig>>
Save == \E x \in 0 .. W-1, y \in 0 .. H-1, r \in {8, 20, 40} :
          saved' = [on |-> TRUE, S |-> Clip(m, CircleCells(m, x, y, r)), v |-> m.v] /\ orig' = m /\ UNCHANGED m
Restore == saved.on /\ m' = SetCells(m, saved.S, LAMBDA c : saved.v[1 + c[2] * W + c[1]]) /\ UNCHANGED <<saved, orig>>
Next == n < MaxOps /\ n' = n + 1 /\ (Write \/ Save \/ Restore)
OneClass == \A v \in 0 .. 255 : Class(m, v) \in {1, 2, 4}
(* restoring touches only cells of the circle, and gives those their old values *)
RestoreOk == [][ (saved.on /\ saved' = saved /\ m' = SetCells(m, saved.S, LAMBDA c : saved.v[1 + c[2] * W + c[1]])) =>
                 \A x \in 0..W-1, y \in 0..H-1 : At(m', x, y) = IF <<x, y>> \in saved.S THEN At(orig, x, y) ELSE At(m, x, y) ]_vars
=============================================================================
