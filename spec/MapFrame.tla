------------------------------- MODULE MapFrame -----------------------------
(* The frame of a map: origin O, resolution R, both on a lattice of L points per    *)
(* unit, and a rotation with cos = C/H, sin = S/H (Pythagorean).                     *)
EXTENDS Integers, Sequences, TLC
(* cell coordinate of a lattice point as the fraction N / D *)
D(f) == f.H * f.R
NX(f, px, py) == f.C * (px - f.O[1]) + f.S * (py - f.O[2])
NY(f, px, py) == f.C * (py - f.O[2]) - f.S * (px - f.O[1])
InMap(f, x, y) == x >= 0 /\ y >= 0 /\ x < f.w /\ y < f.h
(* the cells a coordinate may belong to: one, or, where floating point decides a point exactly on an edge, two *)
CellsOf(f, n) == LET q == n \div D(f) IN IF ~f.exact /\ n % D(f) = 0 THEN {q - 1, q} ELSE {q}
(* the centre of a cell in units of 1/(2 H L) *)
CentreX(f, x, y) == 2 * f.H * f.O[1] + f.R * (f.C * (2 * x + 1) - f.S * (2 * y + 1))
CentreY(f, x, y) == 2 * f.H * f.O[2] + f.R * (f.S * (2 * x + 1) + f.C * (2 * y + 1))
(* 64 * n / D without overflow *)
Sub64(f, n) == 64 * (n \div D(f)) + (64 * (n % D(f))) \div D(f)
=============================================================================
