--------------------------- MODULE DiscreteTrace ---------------------------
(* Recorded discretisations of lines and arcs, lengths in 10^-5, angles in 10^-7.  *)
EXTENDS Discrete, Trig, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
Op == Cases[c].ops[i + 1]
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0
Near(a, b, e) == Abs(a - b) <= e
(* the number of pieces, undecided when the length is a multiple but for rounding *)
Counts(l) == {Pieces(Max(l - 3, 0), Op.res), Pieces(l, Op.res), Pieces(l + 3, Op.res)}
P == Op.p        \* the recorded places, those with numbers Op.k out of Op.len
(* ---- lines ---- *)
DX == Op.b[1] - Op.a[1]
DY == Op.b[2] - Op.a[2]
LineAt(k, dir, f) == LET cs == f IN
  IF dir > 0 THEN <<Op.a[1] + MulF(k * Op.res, cs[1]), Op.a[2] + MulF(k * Op.res, cs[2])>>
  ELSE <<Op.b[1] - MulF(k * Op.res, cs[1]), Op.b[2] - MulF(k * Op.res, cs[2])>>
LinePosesOk ==
  LET t == TLCEval(Atan2(DY, DX)) f == TLCEval(CosSin(t)) IN
  \E n \in Counts(Hypot(DX, DY)) :
    \E s \in {TLCEval(LinePlaces(n, Op.with))} :
    /\ Op.len = Len(s) /\ Len(P) = Len(Op.k)
    /\ \A m \in 1 .. Len(P) : LET k == Op.k[m] q == TLCEval(LineAt(s[k], Op.dir, f)) IN
         Near(P[m][1], q[1], 5) /\ Near(P[m][2], q[2], 5) /\ Apart(P[m][3], t) <= 30
LinePointsOk ==
  LET f == TLCEval(CosSin(Atan2(DY, DX))) IN
  \E n \in Counts(Hypot(DX, DY)) :
    \E s \in {TLCEval(LinePoints(n))} :
    /\ Op.len = Len(s) /\ Len(P) = Len(Op.k)
    /\ \A m \in 1 .. Len(P) : LET k == Op.k[m] q == TLCEval(IF k = Len(s) THEN Op.b ELSE LineAt(s[k], 1, f)) IN Near(P[m][1], q[1], 5) /\ Near(P[m][2], q[2], 5)
(* ---- arcs: start angle s, arc angle n, sense d ---- *)
Part(a, k, n) == IF n = 0 THEN 0 ELSE (a \div n) * k + ((a % n) * k) \div n
ArcAngle(k, n, dir) == IF dir > 0 THEN Op.s + Op.d * Part(Op.n, k, n) ELSE Op.s + Op.d * (Op.n - Part(Op.n, k, n))
ArcAt(t) == Polar(Op.z[1], Op.z[2], Op.r, t)
ArcPosesOk ==
  \E n \in Counts(ArcLen(Op.r, Op.n)) :
    \E s \in {TLCEval(ArcPlaces(n, Op.with))} :
    /\ Op.len = Len(s) /\ Len(P) = Len(Op.k)
    /\ \A m \in 1 .. Len(P) : LET k == Op.k[m] t == TLCEval(ArcAngle(s[k], n, Op.dir)) q == TLCEval(ArcAt(t)) IN
         Near(P[m][1], q[1], 5) /\ Near(P[m][2], q[2], 5) /\ Apart(P[m][3], t + Op.d * HALF) <= 30
(* with or without the end *)
ArcPointsOk ==
  \E n \in Counts(ArcLen(Op.r, Op.n)) : \E s \in {ArcPoints(n), ArcPlaces(n, TRUE)} :
    /\ Op.len = Len(s) /\ Len(P) = Len(Op.k)
    /\ \A m \in 1 .. Len(P) : LET k == Op.k[m] q == TLCEval(ArcAt(ArcAngle(s[k], n, 1))) IN Near(P[m][1], q[1], 5) /\ Near(P[m][2], q[2], 5)
Ok == IF Op.res = 0 THEN Op.len = 0
      ELSE CASE Op.o = "lposes" -> LinePosesOk [] Op.o = "lpoints" -> LinePointsOk [] Op.o = "cposes" -> ArcPosesOk [] Op.o = "cpoints" -> ArcPointsOk
Next == \/ i < Len(Cases[c].ops) /\ Ok = TRUE /\ i' = i + 1 /\ UNCHANGED c
        \/ i = Len(Cases[c].ops) /\ UNCHANGED vars
=============================================================================
