------------------------------ MODULE Expansion ------------------------------
(* Analytic expansion.                                                            *)
(* How often one is tried, and which curve it takes: the cheapest forward curve of *)
(* an arc, a line and an arc that is free and turns less than half a turn.         *)
EXTENDS Curves, FiniteSets

(* ---- how often ---- *)
(* s: first (heuristic cost of the first state asked for, -1 before), min (lowest  *)
(* since), cur (states asked for since the last try), n (states between two tries)  *)
(* fwd, bwd: which directions count at all                                          *)
Begin(N) == [first |-> 0 - 1, min |-> 0, cur |-> N, n |-> N]
Counts(cfg, f) == (f /\ cfg.fwd) \/ (~f /\ cfg.bwd)
Seen(cfg, s, h) ==
  IF s.first < 0 THEN [s EXCEPT !.cur = @ + 1, !.first = h, !.min = h]
  ELSE IF h < s.min THEN [s EXCEPT !.cur = @ + 1, !.min = h, !.n = (cfg.n * h) \div s.first]
  ELSE [s EXCEPT !.cur = @ + 1]
Due(s, t) == s.first >= 0 /\ t.cur >= t.n          \* s before, t = Seen
(* the state afterwards, and whether a curve is looked for *)
Asked(cfg, s, f, h) ==
  IF ~Counts(cfg, f) THEN <<s, FALSE>>
  ELSE LET t == Seen(cfg, s, h) IN IF Due(s, t) THEN <<[t EXCEPT !.cur = 0], f>> ELSE <<t, FALSE>>

(* ---- which curve ---- *)
FORWARD == {<<Seg(a, "f"), Seg("S", "f"), Seg(b, "f")>> : a, b \in {"L", "R"}}
RECURSIVE Worth(_, _, _)
Worth(S, r, k) == IF k = 0 THEN 0 ELSE Worth(S, r, k - 1) + (IF S[k].t = "S" THEN 10 * (LenOf(S[k], r) \div 10) ELSE 13 * (LenOf(S[k], r) \div 10))
(* weight in 10^-3 cells, a line costs its length and an arc 1.3 times that *)
Cand(s, r, w, h, discs, walls) ==
  LET turn == Turns(s.segs, Len(s.segs))
      slack == 60 + ArcLen(4 * r, s.e)
      wt == Worth(s.segs, r, Len(s.segs)) \div 100
      tw == 5 + wt \div 100000 + (slack * 8) \div 100
  IN [sure |-> Min(s.st, Free(s.segs, r, w, h, discs, walls, Len(s.segs))), arc |-> AtLeast(PI, turn, 100 + 4 * s.e), slack |-> slack, e |-> s.e, segs |-> s.segs, lo |-> wt - tw, hi |-> wt + tw]
Cands(A, B, r, w, h, discs, walls) ==
  UNION {LET X == TLCEval(Solutions(W, A, B, r)) IN {Cand(X[q], r, w, h, discs, walls) : q \in DOMAIN X} : W \in FORWARD}
Sure(C) == {x \in C : x.sure = 2 /\ x.arc = 2}
Usable(C) == {x \in C : x.sure > 0 /\ x.arc > 0 /\ \A y \in Sure(C) : x.lo <= y.hi}
=============================================================================
