----------------------------- MODULE VehicleMC -----------------------------
(* The design of the vehicle neighbourhoods: what drives built from their moves      *)
(* look like, and that the arcs are arcs.                                            *)
EXTENDS Vehicle
CONSTANT DEPTH
VARIABLES v, s, trail
vars == <<v, s, trail>>
Base == [k |-> "S", dist |-> 40, la |-> 120, res |-> 10, delta |-> 15, steps |-> 2, max |-> 40, sw |-> 3, rev |-> FALSE, half |-> FALSE,
         rot |-> 0, pb |-> 2500, pt |-> 4000, dirs |-> {TRUE, FALSE}]
Configs == {Base, [Base EXCEPT !.sw = 1, !.steps = 1], [Base EXCEPT !.dirs = {TRUE}, !.max = 30], [Base EXCEPT !.k = "D", !.sw = 1],
            [Base EXCEPT !.k = "D", !.sw = 1, !.dirs = {FALSE}], [Base EXCEPT !.sw = 2, !.rev = TRUE], [Base EXCEPT !.k = "D", !.sw = 1, !.rev = TRUE]}
Init == /\ v \in Configs
        /\ \E f \in v.dirs, t \in {0, 7000000, 0 - 20000000} : s = [x |-> 0, y |-> 0, t |-> t, st |-> 0, f |-> f, cu |-> 0, first |-> TRUE, hist |-> <<>>]
        /\ trail = <<>>
Step(m) == LET e == Leads(v, s, m) IN
  /\ s' = [x |-> e.x, y |-> e.y, t |-> e.t, st |-> e.st, f |-> e.f, cu |-> e.cu, first |-> FALSE,
           hist |-> IF trail = <<>> THEN <<s.st = 0>> ELSE <<s.st = 0>> \o SubSeq(s.hist, 1, Min(2, Len(s.hist)))]
  /\ trail' = Append(trail, [f |-> e.f, st |-> e.st, cost |-> e.cost, from |-> <<s.x, s.y, s.t>>])
  /\ UNCHANGED v
Next == (Len(trail) < DEPTH /\ \E m \in Moves(v, s) : Step(m)) \/ (Len(trail) = DEPTH /\ UNCHANGED vars)
Limited == Abs(s.st) <= v.max /\ s.cu \in 0 .. v.sw - 1 /\ s.f \in v.dirs
St(n) == IF n = 0 THEN 0 ELSE trail[n].st
Smooth == \A n \in 1 .. Len(trail) : Abs(trail[n].st - St(n - 1)) <= v.steps * v.delta
(* around a change of direction the vehicle drives straight; the turn that pays off what is owed may be the last of a drive only *)
Switch(n) == n > 1 /\ trail[n].f # trail[n - 1].f
Cusps == \A n \in 1 .. Len(trail) : Switch(n) =>
  /\ St(n) = 0
  /\ \A m \in 1 .. v.sw - 1 : n - 1 - m >= 0 /\ St(n - 1 - m) = 0
  /\ \A m \in 1 .. v.sw - 2 : n + m < Len(trail) => St(n + m) = 0
  /\ \A m \in 1 .. v.sw - 1 : n + m <= Len(trail) => ~Switch(n + m)
(* driving back the way one came leads to where one was *)
Near(a, b) == Abs(a[1] - b[1]) <= 12 /\ Abs(a[2] - b[2]) <= 12 /\ Apart(a[3], b[3]) <= 4
Special == v.k = "D" /\ ~v.rev /\ Len(trail) = 1 /\ ~s.f
BackAgain == trail # <<>> /\ ~Special =>
  Near(ArcEnd(v, s, s.st, 0 - Dir(v, s.f)), trail[Len(trail)].from)
(* an arc is longer than its chord, but not by much, and turns by length over radius *)
ArcOk == trail # <<>> /\ s.st # 0 =>
  LET p == trail[Len(trail)].from chord == Hypot(s.x - p[1], s.y - p[2]) IN
  /\ chord <= StepLen(v) + 10 /\ chord * 11 >= StepLen(v) * 10
  /\ Abs(ArcLen(Radius(v, s.st), Turned(v, s.st)) - StepLen(v)) <= 40
Priced == \A n \in 1 .. Len(trail) : trail[n].cost >= StepLen(v)
=============================================================================
