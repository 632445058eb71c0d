---------------------------- MODULE ExpansionTrace ----------------------------
(* Recorded questions to a Reeds-Shepp expansion: h in 1/16, the state (a, f) and   *)
(* the goal (b); the answer and the poses fetched afterwards.                       *)
EXTENDS Expansion, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, s
vars == <<c, i, s>>
M == Cases[c]
Op == M.ops[i + 1]
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0 /\ s = Begin(Cases[k].cfg.n)
Ok(try) ==
  IF ~try THEN ~Op.yes
  ELSE LET C == TLCEval(Cands(Op.a, Op.b, M.r, M.w, M.h, Op.discs, Op.walls)) IN
       IF ~Op.yes THEN Sure(C) = {}
       ELSE Op.tidy /\ \E x \in Usable(C) : Iteration(x.segs, M.r, Op.poses, M.maxd, Op.a, Op.b, x.slack, 100 + 2 * x.e)
Next == \/ i < Len(M.ops) /\ LET n == TLCEval(Asked(M.cfg, s, Op.f, Op.h)) IN Ok(n[2]) = TRUE /\ s' = n[1] /\ i' = i + 1 /\ UNCHANGED c
        \/ i = Len(M.ops) /\ UNCHANGED vars
=============================================================================
