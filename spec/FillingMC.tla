------------------------------ MODULE FillingMC -----------------------------
(* The filling curve stays within its square and enters each room exactly once. *)
EXTENDS Mazes
CONSTANT N
VARIABLES n, d, k, at, seen
vars == <<n, d, k, at, seen>>
Curve == [m \in 1 .. N |-> [e \in {"l", "r", "u", "d"} |-> Moves(m, e)]]
Corner(m, e) == IF e \in {"u", "l"} THEN <<0, 0>> ELSE <<2 ^ m - 1, 2 ^ m - 1>>
Init == n \in 1 .. N /\ d \in {"l", "r", "u", "d"} /\ k = 0 /\ at = Corner(n, d) /\ seen = {at}
Next == \/ /\ k < Len(Curve[n][d])
           /\ LET s == Step[Curve[n][d][k + 1]] IN at' = <<at[1] + s[1], at[2] + s[2]>>
           /\ k' = k + 1 /\ seen' = seen \cup {at'} /\ UNCHANGED <<n, d>>
        \/ k = Len(Curve[n][d]) /\ UNCHANGED vars
Inside == at \in Rooms(2 ^ n, 2 ^ n)
Once == Cardinality(seen) = k + 1
Fills == k = Len(Curve[n][d]) => seen = Rooms(2 ^ n, 2 ^ n)
=============================================================================
