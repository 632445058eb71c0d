----------------------------- MODULE OpenListMC -----------------------------
(* Design model: every history of a small list, every tie broken every way.   *)
EXTENDS OpenList
CONSTANTS W, H, Ds, Ps, MaxAdds
VARIABLES s, log, adds
vars == <<s, log, adds>>
Cells == (0..W-1) \X (0..H-1)
Init == s = Empty(W, H) /\ log = <<>> /\ adds = 0
DoReset == s' = Reset(s) /\ log' = <<>> /\ UNCHANGED adds
DoAdd == \E c \in (-1..W) \X (-1..H), d \in Ds, p \in Ps, par \in s.served \cup {-1} :
           /\ adds < MaxAdds /\ adds' = adds + 1
           /\ s' = Add(s, c[1], c[2], d, p, par) /\ UNCHANGED log
DoServe == \E i \in DOMAIN s.open : Minimal(s, i) /\ s' = Serve(s, i) /\ log' = Append(log, i) /\ UNCHANGED adds
Next == DoReset \/ DoAdd \/ DoServe
Spec == Init /\ [][Next]_vars

OncePerCell == \A a, b \in 1..Len(log) : log[a] = log[b] => a = b
Disjoint == DOMAIN s.open \cap s.served = {}
ServedIsLog == s.served = { log[k] : k \in 1..Len(log) }
InRange == DOMAIN s.open \cup s.served \subseteq 0..(W*H-1)
ParentsServed == \A i \in DOMAIN s.open : s.open[i].par \in s.served \cup {-1}
(* a better entry replaces, nothing ever makes an entry worse (at integer precision) *)
NeverWorse == [][\A i \in DOMAIN s.open \cap DOMAIN s'.open : Key(s'.open[i]) <= Key(s.open[i]) \/ s'.served = {}]_vars
=============================================================================
