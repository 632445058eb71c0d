-------------------------- MODULE VehicleSearchMC --------------------------
(* The vehicle search as a design, on a line: states are told apart by cell and      *)
(* driving direction only, so an improved state moves within its cell while its       *)
(* successors stay where they were.  Open states are taken in any order.              *)
EXTENDS Integers, FiniteSets
CONSTANTS CELLS, WIDTH, LENS
VARIABLES blocked, start, goal, node, found
vars == <<blocked, start, goal, node, found>>
Dirs == {1, 0 - 1}
Ids == (0 .. CELLS - 1) \X Dirs
NONE == [pos |-> 0 - 1, d |-> 1000, open |-> FALSE, prev |-> <<0 - 1, 0>>]
CellOf(p) == p \div WIDTH
(* a move is a direction and a length; backward costs double, a change of direction 1 *)
Moves == Dirs \X LENS
Cost(id, m) == (IF m[1] = 1 THEN 1 ELSE 2) * m[2] + (IF m[1] # id[2] THEN 1 ELSE 0)
Free(p) == p >= 0 /\ p < CELLS * WIDTH /\ CellOf(p) \notin blocked
Starts == {<<CellOf(start), f>> : f \in Dirs}
Targets(id) == {m \in Moves : /\ id \in Starts => m[1] = id[2]
                              /\ Free(node[id].pos + m[1] * m[2])}
To(id, m) == <<CellOf(node[id].pos + m[1] * m[2]), m[1]>>
Init ==
  /\ blocked \in SUBSET (0 .. CELLS - 1) /\ start \in {c * WIDTH : c \in 0 .. CELLS - 1} /\ goal \in 0 .. CELLS * WIDTH - 1
  /\ Free(start) /\ Free(goal)
  /\ node = [id \in Ids |-> IF id \in Starts THEN [pos |-> start, d |-> 0, open |-> TRUE, prev |-> id] ELSE NONE]
  /\ found = <<0 - 1, 0>>
Expand(id) ==
  /\ node[id].open
  /\ IF node[id].pos = goal
     THEN found' = id /\ node' = [node EXCEPT ![id].open = FALSE]
     ELSE /\ UNCHANGED found
          /\ node' = [k \in Ids |->
               \* of several moves into one state the cheapest remains
               LET best == {m \in Targets(id) : To(id, m) = k /\ node[id].d + Cost(id, m) < node[k].d} IN
               IF best # {} THEN LET m == CHOOSE m \in best : \A o \in best : Cost(id, m) <= Cost(id, o) IN
                                 [pos |-> node[id].pos + m[1] * m[2], d |-> node[id].d + Cost(id, m), open |-> TRUE, prev |-> id]
               ELSE IF k = id THEN [node[k] EXCEPT !.open = FALSE] ELSE node[k]]
Next == found = <<0 - 1, 0>> /\ (\E id \in Ids : Expand(id)) /\ UNCHANGED <<blocked, start, goal>>
Spec == Init /\ [][Next]_vars
Seen == {id \in Ids : node[id].pos >= 0}
(* every state lies free, in its own cell *)
Places == \A id \in Seen : Free(node[id].pos) /\ CellOf(node[id].pos) = id[1]
(* predecessors only get cheaper, so the way back ends at the start *)
Costs == \A id \in Seen \ Starts : node[id].prev \in Seen /\ node[node[id].prev].d < node[id].d
StartsKept == \A id \in Starts : node[id].d = 0 /\ node[id].pos = start
Back[id \in Ids, n \in 0 .. 2 * CELLS] == id \in Starts \/ (n > 0 /\ Back[node[id].prev, n - 1])
WayBack == \A id \in Seen : Back[id, 2 * CELLS]
(* a step is one move long; after an improvement of its predecessor, up to a cell off *)
Exact(id) == \E l \in LENS : node[id].pos = node[node[id].prev].pos + id[2] * l /\ node[id].d = node[node[id].prev].d + Cost(node[id].prev, <<id[2], l>>)
Steps == \A id \in Seen \ Starts : LET p == node[node[id].prev] IN
  \/ Exact(id)
  \/ /\ \E l \in LENS : LET off == node[id].pos - p.pos - id[2] * l IN
          off < WIDTH /\ 0 - off < WIDTH /\ p.d + Cost(node[id].prev, <<id[2], l>>) < node[id].d
(* what has been looked at is closed under free moves *)
Complete == \A id \in Seen : ~node[id].open /\ found # id => \A m \in Targets(id) : node[To(id, m)].d <= node[id].d + Cost(id, m)
Answer == found # <<0 - 1, 0>> => node[found].pos = goal
Improves == [][\A id \in Ids : node'[id].d <= node[id].d]_vars
=============================================================================
