----------------------------- MODULE StateSpace -----------------------------
(* State spaces: every state <<x, y, heading slot, direction>> inside has exactly one node. *)
(* seen is the sequence of states looked up since the map was set; a node is known by the   *)
(* order in which it was first seen, so the node of state seen[n] is n.                     *)
EXTENDS Integers, Sequences, TLC
Inside(S, x, y, t) == x >= -S.pad /\ y >= -S.pad /\ x < S.w + S.pad /\ y < S.h + S.pad /\ t < S.slots
Known(seen, k) == { n \in 1 .. Len(seen) : seen[n] = k }
(* the node a lookup has to yield (0: refused) and the states known afterwards *)
NodeOf(S, seen, k) == IF ~Inside(S, k[1], k[2], k[3]) THEN 0
                      ELSE IF Known(seen, k) # {} THEN CHOOSE n \in Known(seen, k) : TRUE ELSE Len(seen) + 1
After(S, seen, k) == IF Inside(S, k[1], k[2], k[3]) /\ Known(seen, k) = {} THEN Append(seen, k) ELSE seen
=============================================================================
