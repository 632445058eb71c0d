--------------------------- MODULE LegacyAStarGen ---------------------------
(* Every history of length Depth over a small alphabet of maps and queries.        *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Depth
VARIABLES hist
Letters == {"m 1", "m 2", "r 1 2 3 001000", "r 1 4 2 01000010", "r 2 3 2 000010", "p 0 0 2 1", "p 1 1 0 0", "p 2 0 0 1", "p 0 0 1 2", "p 3 1 0 0"}
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E l \in Letters : hist' = Append(hist, l)
Line == LET RECURSIVE Cat(_) Cat(k) == IF k = 0 THEN "" ELSE Cat(k - 1) \o hist[k] \o " " IN Cat(Len(hist))
Emit == Len(hist) = Depth => PrintT(<<"SCRIPT", Line>>)
=============================================================================
