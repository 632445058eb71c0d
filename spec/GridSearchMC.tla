---------------------------- MODULE GridSearchMC ----------------------------
(* Design model: the best-first search itself, every tie broken every way, on    *)
(* every small map with every start and goal.                                    *)
EXTENDS GridSearch
CONSTANTS W, HH, Kinds
MCKinds == { <<h, n, 1, 1>> : h \in 0..3, n \in {4, 8} } \cup {<<1, 8, 2, 1>>}
VARIABLES K, M, s, g, dist, prev, open, closed, done, path
vars == <<K, M, s, g, dist, prev, open, closed, done, path>>
F(c) == dist[c] + H(K, c, g)
Init == /\ K \in Kinds
        /\ \E f \in [1 .. W * HH -> {0, 1}] : M = [w |-> W, h |-> HH, cells |-> f]
        /\ s \in Cells(M) /\ ~Occupied(M, s[1], s[2])
        /\ g \in Cells(M) /\ ~Occupied(M, g[1], g[2])
        /\ dist = [ c \in Cells(M) |-> IF c = s THEN 0 ELSE INF ]
        /\ prev = [ c \in Cells(M) |-> c ] /\ open = {s} /\ closed = {} /\ done = FALSE /\ path = <<>>
RECURSIVE Back(_, _, _)
Back(pr, c, acc) == IF c = s THEN <<<<c[1], c[2], dist[c]>>>> \o acc ELSE Back(pr, pr[c], <<<<c[1], c[2], dist[c]>>>> \o acc)
Best == { c \in open : \A e \in open : F(c) <= F(e) }
Expand == /\ ~done /\ open # {}
          /\ \E c \in Best :
               IF AtGoal(K, g, c)
               THEN /\ done' = TRUE /\ path' = Back(prev, c, <<>>)
                    /\ closed' = closed \cup {c} /\ open' = open \ {c} /\ UNCHANGED <<dist, prev>>
               ELSE LET N == FreeNeighbours(K, M, c)
                        NewD(n) == dist[c] + StepCost(K, n[1] - c[1], n[2] - c[2])
                        Better == { n \in N : NewD(n) < dist[n] }
                    IN /\ dist' = [ n \in DOMAIN dist |-> IF n \in Better THEN NewD(n) ELSE dist[n] ]
                       /\ prev' = [ n \in DOMAIN prev |-> IF n \in Better THEN c ELSE prev[n] ]
                       /\ open' = (open \ {c}) \cup Better
                       /\ closed' = (closed \cup {c}) \ Better
                       /\ UNCHANGED <<done, path>>
          /\ UNCHANGED <<K, M, s, g>>
GiveUp == ~done /\ open = {} /\ done' = TRUE /\ UNCHANGED <<K, M, s, g, dist, prev, open, closed, path>>
Stay == done /\ UNCHANGED vars
Next == Expand \/ GiveUp \/ Stay
Spec == Init /\ [][Next]_vars /\ WF_vars(Expand \/ GiveUp)
Sound == done => SoundPath(K, M, s, g, path)
Complete == done => CompletePath(K, M, s, g, path)
Cheap == done => CheapPath(K, M, s, g, path)
(* with a consistent heuristic nothing is opened twice *)
ClosedFinal == [][Consistent(K) => closed \subseteq closed']_vars
Terminates == <>done
=============================================================================
