------------------------------- MODULE ArcGen -------------------------------
(* Histories of edits to replay: angles in eighths of a turn.                     *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Depth, ANG
VARIABLE h
Edits == {<<o, a>> : o \in {"s", "e", "a", "S", "E"}, a \in ANG} \cup {<<o, a>> : o \in {"L", "R"}, a \in ANG}
Init == \E d \in {"+", "-"} : h = <<<<d, 0>>>>
Next == Len(h) < Depth + 1 /\ \E e \in Edits : h' = Append(h, e)
RECURSIVE Line(_, _)
Line(s, k) == IF k > Len(s) THEN "" ELSE s[k][1] \o ToString(s[k][2]) \o " " \o Line(s, k + 1)
Emit == Len(h) = Depth + 1 => PrintT(<<"SCRIPT", Line(h, 1)>>)
=============================================================================
