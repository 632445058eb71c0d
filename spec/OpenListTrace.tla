---------------------------- MODULE OpenListTrace ---------------------------
(* Is every recorded history of the real list a behaviour of OpenList?        *)
EXTENDS OpenList, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, s
vars == <<c, i, s>>
Crashed(k) == "crash" \in DOMAIN Cases[k]
Ops == Cases[c].ops
Init == \E k \in 1..Len(Cases) : c = k /\ i = 0
           /\ s = IF Crashed(k) THEN Empty(0, 0) ELSE Empty(Cases[k].w, Cases[k].h)
Op == Ops[i + 1]
More == ~Crashed(c) /\ i < Len(Ops)
Adv(t) == s' = t /\ i' = i + 1 /\ UNCHANGED c
TReset == More /\ Op[1] = 0 /\ Adv(Reset(s))
TAdd == More /\ Op[1] = 1 /\ Adv(Add(s, Op[2], Op[3], Op[4], Op[5], Op[6]))
TNone == More /\ Op[1] = 2 /\ Op[2] = 0 /\ DOMAIN s.open = {} /\ Adv(s)
TServe == /\ More /\ Op[1] = 2 /\ Op[2] = 1
          /\ LET x == Op[3] y == Op[4] k == Op[9] IN
             /\ InGrid(s, x, y) /\ k = Idx(s, x, y)
             /\ Minimal(s, k)
             /\ Op[5] = s.open[k].d /\ Op[6] = Key(s.open[k]) /\ Op[7] = s.open[k].par /\ Op[8] = TRUE
             /\ Adv(Serve(s, k))
(* the printed list is the multiset of keys in non-decreasing order *)
Values == SubSeq(Op, 2, Len(Op))
TPrint == /\ More /\ Op[1] = 3
          /\ Len(Values) = Cardinality(DOMAIN s.open)
          /\ \A a \in 1..Len(Values)-1 : Values[a] <= Values[a+1]
          /\ \A v \in { Values[a] : a \in 1..Len(Values) } :
               Cardinality({a \in 1..Len(Values) : Values[a] = v}) = Cardinality({ k \in DOMAIN s.open : Key(s.open[k]) = v })
          /\ Adv(s)
Done == ~Crashed(c) /\ i = Len(Ops) /\ UNCHANGED vars
Next == TReset \/ TAdd \/ TNone \/ TServe \/ TPrint \/ Done
Disjoint == DOMAIN s.open \cap s.served = {}
=============================================================================
