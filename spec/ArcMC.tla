-------------------------------- MODULE ArcMC --------------------------------
(* Every history of edits of an arc on a lattice of FULL angles.                  *)
EXTENDS Arc, FiniteSets
VARIABLES A, old, op
vars == <<A, old, op>>
ANGLES == (0 - FULL) .. 2 * FULL
Init == \E d \in {1, 0 - 1} : A = New(d) /\ old = New(d) /\ op = "new"
Edit(S, o) == A' \in S /\ old' = A /\ op' = o
Next == \/ \E a \in ANGLES : Edit(WithStart(A, a), "start") \/ Edit(WithEnd(A, a), "end") \/ Edit(WithTurn(A, a), "turn")
        \/ \E a \in 0 .. FULL - 1, n \in ANGLES, d \in {1, 0 - 1} : Edit(WithAll(a, n, d), "all")
Range == A.n \in 0 .. FULL /\ A.s \in 0 .. FULL - 1
Kept == /\ op = "start" => Into(EndOf(A)) = Into(EndOf(old)) /\ A.d = old.d
        /\ op = "end" => A.s = old.s /\ A.d = old.d
        /\ op = "turn" => A.s = old.s /\ A.d = old.d
(* what is on the arc: exactly the angles passed from start to end *)
Covered == {Into(A.s + A.d * m) : m \in 0 .. A.n}
OnIsCovered == \A a \in 0 .. FULL - 1 : On(A, a) <=> a \in Covered
EndsOn == On(A, A.s) /\ On(A, EndOf(A))
(* driven the other way it is the same arc *)
Back == [s |-> Into(EndOf(A)), n |-> A.n, d |-> 0 - A.d]
SameBack == \A a \in 0 .. FULL - 1 : On(A, a) <=> On(Back, a)
Size == A.n < FULL => Cardinality(Covered) = A.n + 1
=============================================================================
