------------------------------ MODULE SightMC -------------------------------
(* Design: a query walks the line, looks at a cell, leaves out K, and so on, and looks at the end. *)
(* Every answer it gives is one the contract allows; with K = 0 it is the exact answer.            *)
EXTENDS Sight
CONSTANTS N, KMAX
VARIABLES good, K, at, skip, ans
vars == <<good, K, at, skip, ans>>
Init == /\ \E n \in 0 .. N : good \in [1 .. n -> BOOLEAN]
        /\ K \in 0 .. KMAX /\ at = 0 /\ skip \in 0 .. K /\ ans = "?"
EndGood == IF good = <<>> THEN TRUE ELSE good[Len(good)]
Walk == /\ ans = "?" /\ at < Len(good) /\ at' = at + 1
        /\ IF skip = 0 /\ ~good[at + 1] THEN ans' = "no" ELSE ans' = ans
        /\ skip' = IF skip + 1 > K THEN 0 ELSE skip + 1
        /\ UNCHANGED <<good, K>>
Finish == ans = "?" /\ at = Len(good) /\ ans' = (IF EndGood THEN "yes" ELSE "no") /\ UNCHANGED <<good, K, at, skip>>
Done == ans # "?" /\ UNCHANGED vars
Next == Walk \/ Finish \/ Done
Allowed == ans # "?" => MaySay(good, EndGood, K, ans = "yes")
Exact == (ans # "?" /\ K = 0) => (ans = "yes") = (\A a \in 1 .. Len(good) : good[a])
=============================================================================
