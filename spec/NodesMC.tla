------------------------------- MODULE NodesMC ------------------------------
(* Design model: marks of one node under every history; a flag is set exactly if    *)
(* the last operation naming it, since the last initialisation, marked it.           *)
EXTENDS Nodes
CONSTANT Depth
VARIABLES n, hist
vars == <<n, hist>>
Init == n = InitXY(1, 0, 0) /\ hist = <<>>
Next == Len(hist) < Depth /\ \/ \E m \in 0..15 : n' = Mark(n, m) /\ hist' = Append(hist, <<"M", m>>)
                             \/ \E m \in 0..15 : n' = UnMark(n, m) /\ hist' = Append(hist, <<"U", m>>)
                             \/ n' = InitXY(1, 0, 0) /\ hist' = Append(hist, <<"I", 15>>)
Last(f) == LET K == { k \in 1..Len(hist) : Bit(hist[k][2], f) } IN IF K = {} THEN "I" ELSE hist[CHOOSE k \in K : \A j \in K : j <= k][1]
Meaning == \A f \in Flags : (f \in n.marks) <=> Last(f) = "M"
Queries == \A m \in 0..15 : IsMarked(n, m) <=> \A f \in Bits(m) : IsMarked(n, f)
=============================================================================
