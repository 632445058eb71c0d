------------------------------- MODULE Walls --------------------------------
(* Maps too large to be listed: V = [w, h, walls].  A map is free but for walls, each a whole    *)
(* column with one gap, <<x, y>>, or with none, <<x, -1>>; walls are listed by column and no two  *)
(* are neighbours.  Between two walls nothing is in the way, so that a way leads from gap to gap  *)
(* and its length is a sum over them.  A length is <<straight steps, diagonal steps>>.            *)
EXTENDS GridSearch
SE == INSTANCE SequencesExt
(* the number of the wall in a column *)
Columns(V) == [ x \in { V.walls[k][1] : k \in DOMAIN V.walls } |-> CHOOSE k \in DOMAIN V.walls : V.walls[k][1] = x ]
FreeCell(V, F, x, y) == /\ x >= 0 /\ y >= 0 /\ x < V.w /\ y < V.h
                        /\ x \in DOMAIN F => V.walls[F[x]][2] = y
Leg(K, p, q) == LET dx == Abs(p[1] - q[1]) dy == Abs(p[2] - q[2]) IN
                IF K[2] = 4 THEN <<dx + dy, 0>> ELSE <<Abs(dx - dy), Min(dx, dy)>>
Between(V, p, q) == SelectSeq(V.walls, LAMBDA w : w[1] > Min(p[1], q[1]) /\ w[1] < Max(p[1], q[1]))
(* a wall without a gap lies between *)
Shut(V, p, q) == LET b == Between(V, p, q) IN \E k \in DOMAIN b : b[k][2] = -1
Way(K, V, p, q) == LET b == TLCEval(Between(V, p, q)) lo == IF p[1] <= q[1] THEN p ELSE q hi == IF p[1] <= q[1] THEN q ELSE p
                       At(k) == IF k = 0 THEN lo ELSE IF k > Len(b) THEN hi ELSE b[k]
                       Add(acc, k) == LET l == Leg(K, At(k), At(k + 1)) IN <<acc[1] + l[1], acc[2] + l[2]>>
                   IN SE!FoldLeft(Add, <<0, 0>>, [k \in 1 .. Len(b) + 1 |-> k - 1])
(* in units of 10^-4 cells, exact to one unit for ways of up to 100000 cells *)
Length(ab) == ab[1] * 10000 + ab[2] * 14142 + ((ab[2] * 1356) \div 10000)
=============================================================================
