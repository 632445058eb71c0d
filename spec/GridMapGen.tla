------------------------------ MODULE GridMapGen ----------------------------
(* Every history of length Depth on a tiny map.  WHICH: "cells" or "areas".        *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Depth, WHICH
VARIABLES hist
Letters == IF WHICH = "cells"
  THEN {"all 1 7", "set 3 0 0 255", "set 3 0 0 60", "data 4 2 2 30 60", "data 4 1 1 9 0", "lo 1 9", "up 1 60", "ni 1 255", "ni 1 -1", "raw 2 0 200", "test 5 1 0 0 0 0"}
  ELSE {"area 6 0 1 1 24 0 250", "area 6 1 0 0 2 1 100", "save 3 1 0 40", "save 3 0 0 16", "restore 0", "own 5 0 0 0 32 0", "list 5 0 2 1 33 0", "test 5 1 0 1 2 1", "set 3 0 0 77", "move 7 0 1 1 20 0 2 0"}
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E l \in Letters : hist' = Append(hist, l)
Line == LET RECURSIVE Cat(_) Cat(k) == IF k = 0 THEN "" ELSE Cat(k - 1) \o " " \o hist[k] IN (IF WHICH = "cells" THEN "1 1" ELSE "3 2") \o Cat(Len(hist))
Emit == Len(hist) = Depth => PrintT(<<"SCRIPT", Line>>)
=============================================================================
