------------------------------- MODULE MazesMC ------------------------------
(* Carving depth first, over every choice: what is carved is a tree at any time, and in the end a perfect maze. *)
EXTENDS Mazes
CONSTANT Sizes
SmallSizes == {<<1, 1>>, <<1, 3>>, <<2, 2>>, <<3, 2>>, <<3, 3>>, <<4, 2>>}
LargeSizes == SmallSizes \cup {<<4, 3>>, <<3, 4>>, <<6, 2>>}
VARIABLES w, h, r, at, seen, open, E
vars == <<w, h, r, at, seen, open, E>>
Init == /\ \E s \in Sizes : w = s[1] /\ h = s[2]
        /\ r \in Rooms(w, h) /\ at = r /\ seen = {r} /\ open = <<>> /\ E = {}
Over == Cardinality(seen) = w * h
Dig == /\ ~Over
       /\ \E n \in Near(w, h, at) \ seen : at' = n /\ seen' = seen \cup {n} /\ E' = E \cup {{at, n}} /\ open' = Append(open, at)
       /\ UNCHANGED <<w, h, r>>
Retreat == /\ ~Over /\ Near(w, h, at) \subseteq seen
           /\ open # <<>>
           /\ at' = open[Len(open)] /\ open' = SubSeq(open, 1, Len(open) - 1)
           /\ UNCHANGED <<w, h, r, seen, E>>
Next == Dig \/ Retreat \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Dig \/ Retreat)
Carved == Tree(w, h, E, seen)
Result == Over => Perfect(w, h, E, r)
(* every room left behind with unseen neighbours is returned to *)
Pending == \A a \in seen : Near(w, h, a) \subseteq seen \/ a = at \/ \E k \in 1 .. Len(open) : open[k] = a
Ends == <>Over
=============================================================================
