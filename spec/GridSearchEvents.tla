-------------------------- MODULE GridSearchEvents --------------------------
(* The search step by step: everything the open list of a real search sees is   *)
(* a behaviour of best-first search.                                             *)
(* ev = <<kind, x, y, cost, estimate>>: kind 0 enters the open list, 1 is served,*)
(* 2 is taken out.                                                               *)
EXTENDS GridSearch, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, gcost, est, open, last
vars == <<c, i, gcost, est, open, last>>
Case == Cases[c]
K == Case.alg
M == Case.map
Ev == Case.ev
E == Ev[i + 1]
n == <<E[2], E[3]>>
S == <<Case.s % M.w, Case.s \div M.w>>
G == <<Case.g % M.w, Case.g \div M.w>>
NONE == <<-1, -1>>
More == i < Len(Ev)
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0 /\ gcost = <<>> /\ est = <<>> /\ open = {} /\ last = NONE
Adv == i' = i + 1 /\ UNCHANGED c
Near(a, b) == Abs(a - b) <= 3
TStart == /\ More /\ i = 0 /\ E[1] = 0 /\ n = S /\ E[4] = 0
          /\ gcost' = (n :> 0) /\ est' = (n :> E[5]) /\ open' = {n} /\ UNCHANGED last /\ Adv
(* an entry of the open list is a step from the node being expanded to a free neighbour, at the cost of that way *)
AddOk == /\ last # NONE /\ IsStep(K, last, n) /\ Free(M, n[1], n[2])
         /\ Near(E[4], gcost[last] + StepCost(K, n[1] - last[1], n[2] - last[2]))
         /\ Near(E[5], E[4] + H(K, n, G))
         /\ n \in DOMAIN gcost => E[4] < gcost[n] + 3
TAdd == /\ More /\ i > 0 /\ E[1] = 0 /\ AddOk = TRUE
        /\ gcost' = (n :> E[4]) @@ gcost /\ est' = (n :> E[5]) @@ est /\ open' = open \cup {n} /\ UNCHANGED last /\ Adv
ServeOk == /\ n \in open /\ Near(E[4], gcost[n])
           /\ \A m \in open : est[n] <= est[m] + 3
           /\ last # NONE => ~AtGoal(K, G, last)        \* the search ends at the first node that is good enough
TServe == /\ More /\ E[1] = 1 /\ ServeOk = TRUE
          /\ open' = open \ {n} /\ last' = n /\ UNCHANGED <<gcost, est>> /\ Adv
TRemove == /\ More /\ E[1] = 2 /\ open' = open \ {n} /\ UNCHANGED <<gcost, est, last>> /\ Adv
P == Case.path
DoneOk == /\ (P = <<>>) <=> (open = {} /\ (last = NONE \/ ~AtGoal(K, G, last)))
          /\ P # <<>> => XY(P[Len(P)]) = last /\ Near(P[Len(P)][3], gcost[last])
Done == i = Len(Ev) /\ DoneOk = TRUE /\ UNCHANGED vars
Next == TStart \/ TAdd \/ TServe \/ TRemove \/ Done
=============================================================================
