------------------------------ MODULE OpenList ------------------------------
(* The open list of the legacy A* planner as a state machine.                  *)
(* State  s = [w, h, open, served]                                             *)
(*   open   : partial function  cell index -> [d, p, par]   registered, waiting *)
(*   served : set of cell indices handed out since the last reset               *)
(* Costs are integers counting quarters; the list compares at integer precision,*)
(* i.e. by (d + p) \div 4.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Key(e) == (e.d + e.p) \div 4

Empty(w, h) == [w |-> w, h |-> h, open |-> <<>>, served |-> {}]

InGrid(s, x, y) == x >= 0 /\ y >= 0 /\ x < s.w /\ y < s.h
Idx(s, x, y) == x + y * s.w

Restrict(f, S) == [k \in S |-> f[k]]

Reset(s) == [s EXCEPT !.open = <<>>, !.served = {}]

(* Registering a position.  An existing entry keeps its prediction.            *)
Add(s, x, y, d, p, par) ==
  IF ~InGrid(s, x, y) THEN s
  ELSE LET i == Idx(s, x, y) IN
       IF i \in s.served THEN s
       ELSE IF i \notin DOMAIN s.open
            THEN [s EXCEPT !.open = (i :> [d |-> d, p |-> p, par |-> par]) @@ s.open]
            ELSE IF d + p > 4 * Key(s.open[i]) THEN s
                 ELSE [s EXCEPT !.open = (i :> [d |-> d, p |-> s.open[i].p, par |-> par]) @@ s.open]

Minimal(s, i) == i \in DOMAIN s.open /\ \A k \in DOMAIN s.open : Key(s.open[i]) <= Key(s.open[k])

Serve(s, i) == [s EXCEPT !.open = Restrict(s.open, DOMAIN s.open \ {i}), !.served = @ \cup {i}]
=============================================================================
