--------------------------------- MODULE Arc ---------------------------------
(* An arc of a circle: start angle s, angle n covered, sense d (1 anticlockwise).  *)
(* FULL is the full turn; angles that differ by up to SLACK may be taken as equal,  *)
(* which matters where "no arc" and "full circle" meet.                             *)
EXTENDS Integers
CONSTANTS FULL, SLACK
Into(a) == a % FULL
(* angles in [0, FULL] that stand for the arc angle v *)
Turns(v) == LET n == Into(v) IN IF n <= SLACK THEN {n, FULL} ELSE IF n >= FULL - SLACK THEN {n, 0} ELSE {n}
EndOf(A) == A.s + A.d * A.n
New(d) == [s |-> 0, n |-> FULL, d |-> d]
(* a new start: the end stays *)
WithStart(A, a) == {[A EXCEPT !.s = Into(a), !.n = m] : m \in Turns(A.d * (EndOf(A) - a))}
(* a new end: the start stays *)
WithEnd(A, a) == {[A EXCEPT !.n = m] : m \in Turns(A.d * (a - A.s))}
(* a new arc angle: start and sense stay *)
WithTurn(A, n) == {[A EXCEPT !.n = m] : m \in (IF n >= 0 /\ n <= FULL THEN {n} ELSE Turns(n))}
(* everything *)
WithAll(a, n, d) == WithTurn([s |-> Into(a), n |-> 0, d |-> d], n)
(* how far past the start, in the sense of the arc *)
Past(A, a) == Into(A.d * (a - A.s))
On(A, a) == Past(A, a) <= A.n
=============================================================================
