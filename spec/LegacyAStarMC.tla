--------------------------- MODULE LegacyAStarMC ----------------------------
(* Design model: best-first search with whole-cell estimates, every map of the   *)
(* given size, every pair of cells, every way to break ties.                     *)
EXTENDS LegacyAStar
CONSTANTS W, HH, MapCount, Step
VARIABLES M, s, g, open, served, res
vars == <<M, s, g, open, served, res>>
All == (0 .. W - 1) \X (0 .. HH - 1)
Pow(n) == 2 ^ n
MapOf(b) == [w |-> W, h |-> HH, cells |-> [k \in 1 .. W * HH |-> IF (b \div Pow(k - 1)) % 2 = 1 THEN 1 ELSE 0]]
Pred(c) == H(K8, c, s)
Key(e) == (e.d + e.p) \div UNIT
Init == /\ \E b \in 0 .. MapCount - 1 : M = MapOf((b * Step) % Pow(W * HH))
        /\ s \in All /\ g \in All
        /\ open = (g :> [d |-> 0, p |-> H(K8, g, s), par |-> <<-1, -1>>])
        /\ served = <<>> /\ res = "search"
Minimal(c) == \A k \in DOMAIN open : Key(open[c]) <= Key(open[k])
(* registering one neighbour, as OpenList!Add does *)
Offer(o, c, e) == IF c \in DOMAIN served THEN o
                  ELSE IF c \notin DOMAIN o THEN (c :> e) @@ o
                  ELSE IF e.d + e.p > UNIT * Key(o[c]) THEN o
                  ELSE (c :> [e EXCEPT !.p = o[c].p]) @@ o
RECURSIVE OfferAll(_, _, _, _)
OfferAll(o, S, c, d) == IF S = {} THEN o
                        ELSE LET n == CHOOSE n \in S : TRUE IN
                             OfferAll(IF n = c THEN o ELSE Offer(o, n, [d |-> d + StepCost(K8, n[1] - c[1], n[2] - c[2]), p |-> Pred(n), par |-> c]), S \ {n}, c, d)
Serve == /\ res = "search"
         /\ \E c \in DOMAIN open : /\ Minimal(c)
              /\ served' = (c :> open[c]) @@ served
              /\ LET rest == [k \in DOMAIN open \ {c} |-> open[k]] IN
                 IF c = s THEN open' = rest /\ res' = "path"
                 ELSE open' = OfferAll(rest, FreeNeighbours(K8, M, c), c, open[c].d) /\ res' = "search"
         /\ UNCHANGED <<M, s, g>>
Fail == res = "search" /\ open = <<>> /\ res' = "none" /\ UNCHANGED <<M, s, g, open, served>>
Next == Serve \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Back(c) == LET RECURSIVE B(_) B(k) == IF k = <<-1, -1>> THEN <<>> ELSE <<k>> \o B(served[k].par) IN B(c)
Found == res = "path" => Answer(M, s, g, TRUE, Back(s))
None == res = "none" => Answer(M, s, g, FALSE, <<>>)
Ends == <>(res # "search")
=============================================================================
