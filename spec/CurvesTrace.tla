----------------------------- MODULE CurvesTrace -----------------------------
(* Recorded parses and curve searches.                                            *)
EXTENDS Curves, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, W
vars == <<c, i, W>>
M == Cases[c]
Ops == M.ops
Op == Ops[i + 1]
More == i < Len(Ops)
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0 /\ W = <<>>
Adv == i' = i + 1 /\ UNCHANGED c
(* p: parsing a word: accepted and silent, or refused and reported *)
ParseOk == LET p == Parse(Op.w) IN Op.ret = p.ok /\ Op.msg = (~p.ok)
DoParse == More /\ Op.o = "p" /\ ParseOk = TRUE /\ W' = (IF Parse(Op.w).ok THEN Append(W, Parse(Op.w).segs) ELSE W) /\ Adv
(* f: a search *)
K == Op.k
(* one way to join the poses, with its weight range, how sure it exists, is free and is short enough of turn *)
Cells(sg, r) == LenOf(sg, r) \div CELL
(* map costs: every cell counts v (uniform); the number of cells a segment runs over is only bounded *)
MapLow(S, r) == LET n(sg) == Max(0, ((Cells(sg, r) * 65) \div 100) - 6) IN Fold(LAMBDA a, sg : a + (n(sg) * Factor(sg, K) * Op.v * Op.n) \div 16, 0, S)
MapHigh(S, r) == LET n(sg) == ((Cells(sg, r) * 11) \div 10) + 6 IN Fold(LAMBDA a, sg : a + (n(sg) * Factor(sg, K) * Op.v * Op.n) \div 16 + 1, 0, S)
Cand(s) ==
  LET turn == Turns(s.segs, Len(s.segs))
      slack == 60 + ArcLen(4 * Op.r, s.e)
      w == Weight(s.segs, Op.r, K, Len(s.segs))
      tw == 3 + w \div 100000 + (slack * 24) \div 100
      fr == IF Op.ign THEN 2 ELSE Free(s.segs, Op.r, M.w, M.h, Op.discs, Op.walls, Len(s.segs))
      arc == IF Op.arc >= 2000000000 THEN 2 ELSE AtLeast(Op.arc, turn, 100 + 4 * s.e)
  IN [sure |-> Min(s.st, fr), arc |-> arc, turn |-> turn, slack |-> slack, e |-> s.e, segs |-> s.segs,
      lo |-> IF Op.mapc THEN 1000 * MapLow(s.segs, Op.r) ELSE w - tw, hi |-> IF Op.mapc THEN 1000 * MapHigh(s.segs, Op.r) ELSE w + tw]
Cands == [k \in DOMAIN W |-> LET X == Solutions(W[k], Op.a, Op.b, Op.r) IN TLCEval([q \in DOMAIN X |-> Cand(X[q])])]
(* the answer cannot weigh more than any curve it surely could have given: the planner takes the cheaper of *)
(* the two curves of a word first, so that only that one counts when turns are limited                      *)
Bound(X) == LET P == {q \in DOMAIN X : X[q].sure > 0} IN
  {X[q].hi : q \in {z \in P : X[z].sure = 2 /\ X[z].arc = 2 /\ \A y \in P : y = z \/ X[y].arc = 2 \/ X[y].lo > X[z].hi}}
Fits(x) ==
  /\ x.sure > 0 /\ x.arc > 0
  /\ Op.wt >= x.lo /\ Op.wt <= x.hi
  /\ Abs(Op.turn - x.turn) <= 200 + 4 * x.e
  /\ Iteration(x.segs, Op.r, Op.poses, Op.maxd, Op.a, Op.b, x.slack, 100 + 2 * x.e)
SameBoth == Hypot(Op.sg[1] - Op.a[1], Op.sg[2] - Op.a[2]) <= 3 /\ Apart(Op.sg[3], Op.a[3]) <= 3 /\ Hypot(Op.sg[4] - Op.b[1], Op.sg[5] - Op.b[2]) <= 3 /\ Apart(Op.sg[6], Op.b[3]) <= 3
FindOk ==
  LET C == TLCEval(Cands) B == TLCEval(UNION {Bound(C[k]) : k \in DOMAIN C}) IN
  IF ~Op.found THEN B = {}
  ELSE /\ SameBoth
       /\ \A b \in B : Op.wt <= b
       /\ \E k \in DOMAIN C : \E q \in DOMAIN C[k] : Fits(C[k][q])
Find == More /\ Op.o = "f" /\ FindOk = TRUE /\ UNCHANGED W /\ Adv
Done == i = Len(Ops) /\ UNCHANGED vars
Next == DoParse \/ Find \/ Done
=============================================================================
