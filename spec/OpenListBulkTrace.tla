-------------------------- MODULE OpenListBulkTrace -------------------------
(* Lists of very many entries: rounds of additions and services.  Instead of a step for each     *)
(* of them, what a round leaves behind is said at once (proved of OpenList in OpenListBulkMC).    *)
EXTENDS OpenListBulk, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, open, gone
vars == <<c, i, open, gone>>
Q == Cases[c].rounds[i + 1]
More == i < Len(Cases[c].rounds)
Init == c \in 1 .. Len(Cases) /\ i = 0 /\ open = <<>> /\ gone = {}
(* values are bound by quantifiers: TLC would evaluate definitions anew for every element *)
Round == /\ More
         /\ \E q \in {Q} : \E o \in {TLCEval(IF q.fresh THEN [ k \in 1 .. Cases[c].w * Cases[c].h |-> <<>> ] ELSE open)}, g \in {IF q.fresh THEN {} ELSE gone}, adds \in {q.adds} :
            \E full \in {TLCEval(AddAll(o, g, adds))}, sv \in {q.served} :
            \E order \in {TLCEval([k \in 1 .. Len(sv) |-> sv[k][1]])} :
            \E S \in {TLCEval({ order[k] : k \in 1 .. Len(sv) })} :
               /\ (/\ \A k \in 1 .. Len(sv) : sv[k][1] = sv[k][2]
                   /\ Orderly(full, order)
                   /\ \A k \in 1 .. Len(sv) : LET e == full[sv[k][1] + 1] IN sv[k][3] = e.d /\ sv[k][4] = Key(e)
                   /\ q.empty => \A k \in 1 .. Len(full) : full[k] # <<>> => (k - 1) \in S) = TRUE
               /\ open' = TLCEval(Without(full, S))
               /\ gone' = TLCEval(g \cup S)
         /\ i' = i + 1 /\ UNCHANGED c
Done == ~More /\ UNCHANGED vars
Next == Round \/ Done
=============================================================================
