---------------------------- MODULE StateSpaceMC ----------------------------
(* Design of the lazily allocated space: blocks of C x C cells, one ring of blocks as padding.   *)
(* A node is <<block, offset>>; blocks appear when one of their states is first looked up.       *)
(* Checked: lookups never leave the block array, equal states yield equal nodes, different ones  *)
(* different nodes, and the node a lookup yields is the one the specification asks for.          *)
EXTENDS StateSpace, FiniteSets
CONSTANTS C, MAXW, LOOKUPS
VARIABLES S, seen, addr, blocks, n
vars == <<S, seen, addr, blocks, n>>
BW(len) == (len + 2 * C) \div C + 1
Block(a) == a \div C                       \* rounds down, also for negative coordinates
Offset(a) == a - Block(a) * C
Addr(k) == <<(Block(k[2]) + 1) * BW(S.w) + Block(k[1]) + 1, Offset(k[1]) + Offset(k[2]) * C + k[3] * C * C + (IF k[4] THEN 0 ELSE C * C * S.slots)>>
Keys == (-(C + 1) .. S.w + C + 1) \X (-(C + 1) .. S.h + C + 1) \X {0, S.slots} \X BOOLEAN
Init == /\ \E w, h \in 1 .. MAXW : S = [w |-> w, h |-> h, pad |-> C, slots |-> 1]
        /\ seen = <<>> /\ addr = <<>> /\ blocks = {} /\ n = 0
Look(k) == /\ n < LOOKUPS /\ n' = n + 1
           /\ seen' = After(S, seen, k)
           /\ IF Inside(S, k[1], k[2], k[3]) /\ Known(seen, k) = {} THEN addr' = Append(addr, Addr(k)) ELSE addr' = addr
           /\ blocks' = IF Inside(S, k[1], k[2], k[3]) THEN blocks \cup {Addr(k)[1]} ELSE blocks
           /\ UNCHANGED S
Next == (\E k \in Keys : Look(k)) \/ (n = LOOKUPS /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
InArray == \A b \in blocks : b >= 0 /\ b < BW(S.w) * BW(S.h)
Bijection == /\ \A a, b \in 1 .. Len(addr) : addr[a] = addr[b] => a = b
             /\ \A a \in 1 .. Len(seen) : addr[a] = Addr(seen[a]) /\ addr[a][2] >= 0 /\ addr[a][2] < 2 * C * C * S.slots
=============================================================================
