---------------------------- MODULE VehicleTrace ----------------------------
(* Recorded expansions of vehicle states: v is the configuration, map the space.      *)
(*  ops: s the state, all: every offer was taken, off: the offers in order; an offer  *)
(*  that was taken (add) shows the state of the node afterwards, one that was not     *)
(*  shows whether the node was left alone (kept).                                     *)
EXTENDS VehicleSpace, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
K == Cases[c]
Op == K.ops[i + 1]
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0
V == [K.v EXCEPT !.dirs = {K.v.dirs[n] : n \in DOMAIN K.v.dirs}]
Priced(o, a) == Abs(o.cost - a.cost) <= 20 + a.cost \div 50000
Ok ==
  LET s == Op.s A == TLCEval(Successors(V, s)) O == Op.off IN
  /\ \A n \in DOMAIN O :
       IF O[n].add THEN O[n].dep = s.dep + (IF K.v.k = "N" THEN 0 ELSE 1) /\ \E a \in A : Fits(O[n], a) /\ Priced(O[n], a) /\ ~Blocked(K.map, s, a)
       ELSE O[n].kept /\ \E a \in A : Priced(O[n], a) /\ ~Blocked(K.map, s, a)
  /\ Op.all => \A a \in A : Clear(K.map, s, a) => \E n \in DOMAIN O : Fits(O[n], a)
Next == \/ i < Len(K.ops) /\ Ok = TRUE /\ i' = i + 1 /\ UNCHANGED c
        \/ i = Len(K.ops) /\ UNCHANGED vars
=============================================================================
