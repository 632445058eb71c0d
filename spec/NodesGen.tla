------------------------------ MODULE NodesGen ------------------------------
EXTENDS Integers, Sequences, TLC
CONSTANT Depth
VARIABLES t, hist
Letters == {"I 0", "I 1", "I 2", "M 1", "M 2", "M 4", "M 8", "M 5", "U 1", "U 2", "U 4", "U 8", "U 3"}
Init == t \in 0..8 /\ hist = <<>>
Next == Len(hist) < Depth /\ \E l \in Letters : hist' = Append(hist, l) /\ UNCHANGED t
Line == LET RECURSIVE Cat(_) Cat(k) == IF k = 0 THEN "" ELSE Cat(k - 1) \o " " \o hist[k] IN ToString(t) \o " I 2" \o Cat(Len(hist))
Emit == Len(hist) = Depth => PrintT(<<"SCRIPT", Line>>)
=============================================================================
