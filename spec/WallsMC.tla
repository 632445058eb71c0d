------------------------------ MODULE WallsMC -------------------------------
(* What Walls says of ways and their lengths is what GridSearch says of the same map, cell by cell. *)
EXTENDS Walls
CONSTANTS Wid, Hei
VARIABLES walls, n, s
vars == <<walls, n, s>>
KS == { <<0, k, 1, 1>> : k \in {4, 8} }
V == [w |-> Wid, h |-> Hei, walls |-> walls]
M == LET F == Columns(V) IN [w |-> Wid, h |-> Hei, cells |-> [k \in 1 .. Wid * Hei |-> IF FreeCell(V, F, (k - 1) % Wid, (k - 1) \div Wid) THEN 0 ELSE 1]]
Gaps == -1 .. Hei - 1
Init == walls = <<>> /\ n = 0 /\ s = <<>>
Add == /\ s = <<>> /\ n < Wid
       /\ \/ n' = n + 1 /\ UNCHANGED walls
          \/ \E y \in Gaps : walls' = Append(walls, <<n, y>>) /\ n' = n + 2
       /\ UNCHANGED s
Pick == /\ s = <<>> /\ n >= Wid
        /\ \E x \in 0 .. Wid - 1, y \in 0 .. Hei - 1 : FreeCell(V, Columns(V), x, y) /\ s' = <<x, y>>
        /\ UNCHANGED <<walls, n>>
Next == Add \/ Pick \/ (s # <<>> /\ UNCHANGED vars) \/ (s = <<>> /\ n >= Wid /\ UNCHANGED vars)
Right == s # <<>> => \A K \in KS :
           LET m == TLCEval(M) d == TLCEval(Distances(K, m, s)) F == TLCEval(Columns(V)) IN
           \A c \in Cells(m) : /\ FreeCell(V, F, c[1], c[2]) = Free(m, c[1], c[2])
                               /\ Free(m, c[1], c[2]) => IF d[c] = INF THEN Shut(V, s, c)
                                    ELSE ~Shut(V, s, c) /\ LET l == Way(K, V, s, c) IN l[1] * UNIT + l[2] * DIAG = d[c]
=============================================================================
