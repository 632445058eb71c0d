------------------------------ MODULE CurvesMC -------------------------------
(* Design model: for every word of three or four segments with every choice of cusps *)
(* and every goal of a lattice, each solution is a drivable curve: it begins in the    *)
(* start pose, every segment begins where and as the one before ended, it ends in the  *)
(* goal pose, and its arcs are driven in the sense of their turn and direction.        *)
EXTENDS Curves
CONSTANTS R, Far, Headings
T3 == {<<a, "S", b>> : a \in {"L", "R"}, b \in {"L", "R"}} \cup {<<"L", "R", "L">>, <<"R", "L", "R">>, <<"L", "L", "R">>}
T4 == {<<"L", "R", "L", "R">>, <<"R", "L", "R", "L">>, <<"R", "R", "L", "L">>}
D(n) == [1 .. n -> {"f", "b"}]
Words == {[k \in 1 .. 3 |-> Seg(t[k], d[k])] : t \in T3, d \in D(3)} \cup {[k \in 1 .. 4 |-> Seg(t[k], d[k])] : t \in T4, d \in D(4)}
VARIABLES w, b
Init == w \in Words /\ b = <<>>
Next == b = <<>> /\ UNCHANGED w /\ \E x, y \in 0 - Far .. Far, h \in 0 .. Headings - 1 : b' = <<x * 3 * CELL, y * 3 * CELL + 31234, h * (TURN \div Headings) + 1000000>>
A == <<0, 0, 0>>
HeadAt(sg, end) == IF sg.t = "S" THEN sg.th ELSE sg.a + (IF end THEN sg.sgn * sg.turn ELSE 0) + Side(sg.t)
Meet(p, hp, q, hq, e) == Hypot(p[1] - q[1], p[2] - q[2]) <= 30 + ArcLen(4 * R, e) /\ Apart(hp, hq) <= 300 + 2 * e
Drivable(s) ==
  LET S == s.segs n == Len(S) IN
  /\ n = Len(w)
  /\ Meet(First(S[1], R), HeadAt(S[1], FALSE), A, A[3], s.e)
  /\ Meet(Last(S[n], R), HeadAt(S[n], TRUE), b, b[3], s.e)
  /\ \A k \in 1 .. n - 1 : Meet(Last(S[k], R), HeadAt(S[k], TRUE), First(S[k + 1], R), HeadAt(S[k + 1], FALSE), s.e)
  /\ \A k \in 1 .. n : /\ S[k].t = w[k].t /\ S[k].d = w[k].d /\ S[k].turn >= 0 /\ S[k].turn <= TURN
                       /\ (S[k].t # "S" => S[k].sgn = (IF (w[k].t = "L" /\ w[k].d = "f") \/ (w[k].t = "R" /\ w[k].d = "b") THEN 1 ELSE 0 - 1))
                       /\ (S[k].t = "S" /\ S[k].len > 1000 => LET h == Atan2((Last(S[k], R)[2] - S[k].y), (Last(S[k], R)[1] - S[k].x)) IN Apart(h, IF w[k].d = "f" THEN S[k].th ELSE S[k].th + PI) <= 100000)
(* a curve with the same turns always exists for poses far apart, none with a kink ever *)
Exists == /\ (Len(w) = 3 /\ w[2].t = "S" /\ w[1].t = w[3].t /\ Hypot(b[1], b[2]) > 2 * R + 5 * CELL => Solutions(w, A, b, R) # <<>>)
          /\ ((w[2].t # "S" /\ ~Alternate(w)) => Solutions(w, A, b, R) = <<>>)
Right == b # <<>> => Exists /\ LET X == Solutions(w, A, b, R) IN \A k \in DOMAIN X : Drivable(X[k])
=============================================================================
