----------------------------- MODULE OpenListGen ----------------------------
(* Every behaviour of the specification of length Depth over a tiny alphabet, *)
(* printed as a script that the driver replays into the real list.            *)
EXTENDS OpenList
CONSTANTS W, H, Ds, Depth
VARIABLES s, hist
P(i) == IF i = 0 THEN 1 ELSE 2
Init == s = Empty(W, H) /\ hist = <<>>
Rec(op) == hist' = Append(hist, op)
DoReset == s' = Reset(s) /\ Rec("R")
DoAdd == \E x \in 0..W-1, y \in 0..H-1, d \in Ds :
            LET par == IF s.served = {} THEN -1 ELSE CHOOSE k \in s.served : TRUE IN
            /\ s' = Add(s, x, y, d, P(Idx(s,x,y)), par)
            /\ Rec("A " \o ToString(x) \o " " \o ToString(y) \o " " \o ToString(d) \o " " \o ToString(P(Idx(s,x,y))) \o " " \o ToString(par))
(* the generator follows one tie-break; the trace specification accepts any *)
DoServe == LET M == { i \in DOMAIN s.open : Minimal(s, i) } IN
            /\ s' = IF M = {} THEN s ELSE Serve(s, CHOOSE i \in M : TRUE)
            /\ Rec("F")
Next == Len(hist) < Depth /\ (DoReset \/ DoAdd \/ DoServe)
Line == LET RECURSIVE Cat(_) Cat(k) == IF k = 0 THEN "" ELSE Cat(k-1) \o " " \o hist[k]
        IN ToString(W) \o " " \o ToString(H) \o Cat(Len(hist)) \o " P F F F F"
Emit == Len(hist) = Depth => PrintT(<<"SCRIPT", Line>>)
=============================================================================
