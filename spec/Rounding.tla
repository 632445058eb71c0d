------------------------------ MODULE Rounding ------------------------------
(* Rounding to the nearest integer, halves away from zero.  A number is its sign,  *)
(* its integral part n >= 0 and how its fraction compares with one half (-1,0,1).  *)
EXTENDS Integers
Round(sign, n, cmp) == sign * (IF cmp >= 0 THEN n + 1 ELSE n)
=============================================================================
