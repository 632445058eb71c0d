----------------------------- MODULE GridHistGen ----------------------------
(* Every history of length Depth of one search object over two little maps:      *)
(* setting a map, changing a cell, queries, searches that are aborted, run with   *)
(* oversearch, or run out of time.  Printed as scripts for the driver.            *)
EXTENDS Integers, Sequences, TLC
CONSTANT Depth
VARIABLES cur, hist
Letters == {"M 1", "M 2", "C 1 1", "C 2 2", "X 0", "X 1", "O 0 5 5", "O 4 5 3", "T", "Q 0 5", "Q 5 0", "Q 0 2"}
Init == cur = 1 /\ hist = <<>>
Next == Len(hist) < Depth /\ \E l \in Letters : hist' = Append(hist, l) /\ cur' = (IF l = "M 1" THEN 1 ELSE IF l = "M 2" THEN 2 ELSE cur)
Line == LET RECURSIVE Cat(_) Cat(k) == IF k = 0 THEN "" ELSE Cat(k - 1) \o hist[k] \o " " IN Cat(Len(hist)) \o "Q 0 5 Q 2 0"
Emit == Len(hist) = Depth => PrintT(<<"SCRIPT", Line>>)
=============================================================================
