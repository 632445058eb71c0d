----------------------------- MODULE PiecesTrace ----------------------------
(* Recorded weights of single lines and arcs against Pieces.                      *)
EXTENDS Pieces, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
K == Cases[c]
Op == K.ops[i + 1]
(* weight * 16 for map costs: a sum of tolls, times both factors and the cells per metre *)
Map16(sum) == ((sum * (IF Op.back THEN K.kost.b ELSE K.kost.f)) * (IF Op.o = "l" THEN K.kost.s ELSE K.kost.c)) * K.n
(* weight * 16 in 10^-5 cells without: length in 10^-5 cells *)
Len16(l) == (l * (IF Op.back THEN K.kost.b ELSE K.kost.f)) * (IF Op.o = "l" THEN K.kost.s ELSE K.kost.c)
M == K.maps[Op.m]
S == Cell16(Op.s)
E == Cell16(Op.e)
LineOk ==
  LET must == TLCEval(~InMap(M, S) \/ ~LineMayPass(M, S, E))
      may == TLCEval(must \/ LineMayFail(M, S, E))
      sums == TLCEval(LineSums(M, S, E, K.min))
      len == Hypot(6250 * (Op.e[1] - Op.s[1]), 6250 * (Op.e[2] - Op.s[2]))
  IN IF Op.nf THEN ~Op.ign /\ may
     ELSE /\ Op.ign \/ ~must
          /\ IF K.mapc THEN Op.w16 >= Map16(sums[1]) /\ Op.w16 <= Map16(sums[2])
             ELSE Abs(Op.wt - Len16(len)) <= 100 + Len16(len) \div 500000
Sn == Sense(Op.left, Op.back)
Arc == Swept(Sn, Op.a, Op.b)
Short == Arc <= 150 \/ Arc >= TURN - 150
StartCells ==
  LET p == Polar(6250 * Op.c[1], 6250 * Op.c[2], 6250 * Op.r, Op.a) IN
  { <<(p[1] + u) \div 100000, (p[2] + v) \div 100000>> : u, v \in {-3, 0, 3} }
ArcEnds(X, ctr) ==      \* may the arc end like this, if exactly the cells X are looked at?
  LET ok == TLCEval(\A p \in X : FreeCell(M, p)) IN
  IF Op.nf THEN ~Op.ign /\ ~ok
  ELSE (Op.ign \/ ok) /\ (K.mapc => Op.w16 = Map16(TollSum(M, X, K.min)))
ArcOk ==
  LET ctr == Cell16(Op.c)
      ce == TLCEval(ArcCells(ctr, Op.r \div 16, Sn, Op.a, Arc))
      len == ArcLen(6250 * Op.r, Arc)
  IN IF Short THEN ~Op.nf /\ Op.w16 = 0 /\ Op.wt <= 20
     ELSE /\ \E X \in { ce[1] \cup T : T \in SUBSET ce[2] } :
               IF X # {} THEN ArcEnds(X, ctr) ELSE \E q \in StartCells : ArcEnds({q}, ctr)
          /\ ~K.mapc /\ ~Op.nf => Abs(Op.wt - Len16(len)) <= 200 + Len16(len) \div 200000
Ok == IF Op.o = "l" THEN LineOk ELSE ArcOk
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0
Judge == i < Len(K.ops) /\ Ok = TRUE /\ i' = i + 1 /\ UNCHANGED c
Done == i = Len(K.ops) /\ UNCHANGED vars
Next == Judge \/ Done
=============================================================================
