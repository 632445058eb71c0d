--------------------------- MODULE DistanceFieldMC --------------------------
(* Design of the descent, over all small maps, goals, starts and ties: it arrives exactly if the  *)
(* goal can be reached, passes free neighbouring cells only, never twice the same, and is at most  *)
(* the square root of two times as long as the shortest path.                                      *)
EXTENDS DistanceField
CONSTANTS W, HH
VARIABLES M, g, d, s, at, len, steps, seen, over
vars == <<M, g, d, s, at, len, steps, seen, over>>
Count == (W - 2) * (HH - 2)
Init == /\ \E cs \in [1 .. Count -> {0, 1}], border \in {0, 1} :
             M = [w |-> W, h |-> HH, cells |-> [k \in 1 .. W * HH |->
                   LET x == (k - 1) % W y == (k - 1) \div W IN IF Ring([w |-> W, h |-> HH], x, y) THEN border ELSE cs[x + (y - 1) * (W - 2)]]]
        /\ g \in Cells(M) /\ s \in Cells(M)
        /\ Free(M, g[1], g[2]) /\ Free(M, s[1], s[2])
        /\ d = Framed(M, g) /\ at = s /\ len = 0 /\ steps = 0 /\ seen = {s} /\ over = FALSE
Go == /\ ~over /\ at # g
      /\ \E n \in Below(M, d, at, 5) :
           at' = n /\ len' = len + StepCost(FIELD, n[1] - at[1], n[2] - at[2]) /\ steps' = steps + 1 /\ seen' = seen \cup {n}
      /\ UNCHANGED <<M, g, d, s, over>>
End == /\ ~over /\ (at = g \/ Below(M, d, at, 5) = {}) /\ over' = TRUE /\ UNCHANGED <<M, g, d, s, at, len, steps, seen>>
Next == Go \/ End \/ (over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Go \/ End)
(* a start on the frame is as far as its nearest inner neighbour allows *)
Dist == IF d[s] < INF THEN d[s] ELSE LET N == { n \in Around(M, s) : d[n] < INF } IN
        SetMin({INF} \cup { d[n] + StepCost(FIELD, n[1] - s[1], n[2] - s[2]) : n \in N })
Arrives == over => ((at = g) <=> (Dist < INF))
Nowhere == (over /\ Dist = INF) => at = s
Clean == \A c \in seen : Free(M, c[1], c[2])
Once == Cardinality(seen) = steps + 1
NotLong == (over /\ at = g) => len >= Dist - 20 /\ (len \div 100) * 100 <= (Dist \div 100) * 142 + 200
Ends == <>over
=============================================================================
