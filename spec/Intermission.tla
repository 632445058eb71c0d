---------------------------- MODULE Intermission ----------------------------
(* Progress callback policies.  A policy <<N, S>> and one of its two variants own *)
(* a counter n of the calls so far; N = -1 is the no-op policy.                   *)
EXTENDS Integers, Sequences, TLC
Max(a, b) == IF a > b THEN a ELSE b
Phase(p) == Max(p[2], 1)
(* does call number n (1, 2, ...) fire? *)
Fires(p, n) == /\ p[1] > 0
               /\ \/ n <= Phase(p)
                  \/ (n - Phase(p)) % p[1] = 0
(* the calls from a to b that fire, written so that few have to be looked at *)
FiringWithin(p, a, b) ==
  IF p[1] <= 0 THEN {}
  ELSE (a .. (IF b < Phase(p) THEN b ELSE Phase(p)))
       \cup { n \in { Phase(p) + k * p[1] : k \in 0 .. (IF b < Phase(p) THEN -1 ELSE (b - Phase(p)) \div p[1]) } : n >= a }
=============================================================================
