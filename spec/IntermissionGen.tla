--------------------------- MODULE IntermissionGen --------------------------
(* Every interleaving of the calls of two policies (or two variants of one).      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Pairs, Depth
VARIABLES pair, hist
MCPairs == { <<3, 0, 3, 1>>, <<5, 0, 7, 0>>, <<7, 1, 7, 0>>, <<8, 0, 10, 0>>, <<11, 1, 12, 0>>, <<2, 0, 6, 1>>, <<0, 1, 3, 0>>, <<4, 0, 20, 1>> }
Init == pair \in Pairs /\ hist = <<>>
Next == Len(hist) < Depth /\ \E b \in {1, 3} : hist' = Append(hist, b) /\ UNCHANGED pair
Line == LET RECURSIVE Cat(_) Cat(k) == IF k = 0 THEN "" ELSE Cat(k - 1) \o ToString(pair[hist[k]]) \o " " \o ToString(pair[hist[k] + 1]) \o " " IN Cat(Len(hist))
Emit == Len(hist) = Depth => PrintT(<<"SCRIPT", Line>>)
=============================================================================
