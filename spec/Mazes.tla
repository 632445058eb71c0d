-------------------------------- MODULE Mazes -------------------------------
(* Mazes on a grid of rooms, carved depth first, and the space filling curve through the rooms. *)
(* A passage is the set of the two rooms it joins.                                              *)
EXTENDS Trig, FiniteSets
Rooms(w, h) == (0 .. w - 1) \X (0 .. h - 1)
Beside(a) == { <<a[1] - 1, a[2]>>, <<a[1] + 1, a[2]>>, <<a[1], a[2] - 1>>, <<a[1], a[2] + 1>> }
Near(w, h, a) == Beside(a) \cap Rooms(w, h)
Walls(w, h) == { {a, <<a[1] + 1, a[2]>>} : a \in Rooms(w - 1, h) } \cup { {a, <<a[1], a[2] + 1>>} : a \in Rooms(w, h - 1) }
(* rooms on the way to each room that is reached from r through the passages E *)
RECURSIVE Grow(_, _, _, _, _)
Grow(w, h, E, way, last) ==
  LET new == TLCEval({ b \in UNION { Near(w, h, a) : a \in last } : b \notin DOMAIN way /\ \E a \in last : {a, b} \in E }) IN
  IF new = {} THEN way
  ELSE Grow(w, h, E, TLCEval(way @@ [b \in new |-> LET a == CHOOSE a \in last : a \in Beside(b) /\ {a, b} \in E IN way[a] \cup {b}]), new)
Ways(w, h, E, r) == Grow(w, h, E, r :> {r}, {r})
(* exactly one way between any two of the rooms R *)
Tree(w, h, E, R) == \/ R = {} /\ E = {}
                    \/ R # {} /\ Cardinality(E) = Cardinality(R) - 1 /\ DOMAIN Ways(w, h, E, CHOOSE r \in R : TRUE) = R
(* the mazes that come out of carving as deep as possible: of two rooms side by side one lies on the way to the other *)
Perfect(w, h, E, r) ==
  LET way == TLCEval(Ways(w, h, E, r)) IN
  /\ Cardinality(E) = w * h - 1 /\ DOMAIN way = Rooms(w, h)
  /\ \A m \in Walls(w, h) : \A a, b \in m : a \in way[b] \/ b \in way[a]
Mazes(w, h, r) == { E \in SUBSET Walls(w, h) : Cardinality(E) = w * h - 1 /\ Perfect(w, h, E, r) }
-----------------------------------------------------------------------------
(* the filling curve: moves of the curve that fills 2^n x 2^n rooms, open to the side d *)
Step == [l |-> <<0 - 1, 0>>, r |-> <<1, 0>>, u |-> <<0, 0 - 1>>, d |-> <<0, 1>>]
Back == [l |-> "r", r |-> "l", u |-> "d", d |-> "u"]
Side == [l |-> "u", u |-> "l", r |-> "d", d |-> "r"]
RECURSIVE Moves(_, _)
Moves(n, d) == IF n = 0 THEN <<>>
               ELSE LET s == Moves(n - 1, Side[d]) m == Moves(n - 1, d) e == Moves(n - 1, Back[Side[d]]) IN
                    TLCEval(s \o <<Back[d]>> \o m \o <<Back[Side[d]]>> \o m \o <<d>> \o e)
=============================================================================
