---------------------------- MODULE CurveWordsGen ----------------------------
(* All words over the letters of the grammar up to Depth, and all strings over the   *)
(* whole alphabet with parentheses and a foreign letter up to Wild letters.           *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Depth, Wild
VARIABLES w, plain
Init == w = "" /\ plain \in BOOLEAN
Next == \/ plain /\ Len(w) < Depth /\ \E ch \in {"L", "R", "S", "|"} : w' = w \o ch /\ UNCHANGED plain
        \/ ~plain /\ Len(w) < Wild /\ \E ch \in {"L", "R", "S", "|", "(", ")", "b", "p", "X"} : w' = w \o ch /\ UNCHANGED plain
Emit == PrintT(<<"SCRIPT", IF w = "" THEN "-" ELSE w>>)
=============================================================================
