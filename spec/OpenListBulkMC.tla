--------------------------- MODULE OpenListBulkMC ---------------------------
(* One addition or service after the other (OpenList) comes to what OpenListBulk says at once.    *)
EXTENDS OpenListBulk
CONSTANTS Cells, Ds, Ps, MaxAdds
VARIABLES s, adds, before, sv, gone
vars == <<s, adds, before, sv, gone>>
Pred == CHOOSE f \in [Cells -> Ps] : \A p \in Ps : \E x \in Cells : f[x] = p
Listed(open) == [ k \in 1 .. Cardinality(Cells) |-> IF (k - 1) \in DOMAIN open THEN open[k - 1] ELSE <<>> ]
Nothing == [ k \in 1 .. Cardinality(Cells) |-> <<>> ]
Init == s = Empty(Cardinality(Cells), 1) /\ adds = Nothing /\ before = Nothing /\ sv = <<>> /\ gone = {}
RECURSIVE Total(_)
Total(k) == IF k = 0 THEN 0 ELSE Len(adds[k]) + Total(k - 1)
AddOne == /\ sv = <<>> /\ Total(Len(adds)) < MaxAdds
          /\ \E x \in Cells, d \in Ds : s' = Add(s, x, 0, d, Pred[x], -1) /\ adds' = [adds EXCEPT ![x + 1] = Append(@, <<d, Pred[x]>>)]
          /\ UNCHANGED <<before, sv, gone>>
ServeOne == \E x \in DOMAIN s.open : Minimal(s, x) /\ s' = Serve(s, x) /\ sv' = Append(sv, x) /\ UNCHANGED <<adds, before, gone>>
Again == sv # <<>> /\ gone = {} /\ adds' = Nothing /\ before' = Listed(s.open) /\ sv' = <<>> /\ gone' = s.served /\ UNCHANGED s
Next == AddOne \/ ServeOne \/ Again
Full == AddAll(before, gone, adds)
SumsUp == Orderly(Full, sv) /\ Listed(s.open) = Without(Full, { sv[k] : k \in DOMAIN sv })
(* and nothing else is orderly *)
Only == \A x \in Cells : Orderly(Full, Append(sv, x)) => Minimal(s, x)
=============================================================================
