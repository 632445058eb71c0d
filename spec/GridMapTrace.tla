----------------------------- MODULE GridMapTrace ---------------------------
EXTENDS GridMap, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, m, buf
vars == <<c, i, m, buf>>
Ops == Cases[c].ops
Op == Ops[i + 1]
More == i < Len(Ops)
NoBuf == [S |-> {}, v |-> <<>>]
Init == \E k \in 1 .. Len(Cases) : /\ c = k /\ i = 0 /\ buf = NoBuf
          /\ m = [w |-> Cases[k].w, h |-> Cases[k].h, v |-> [j \in 1 .. Cases[k].w * Cases[k].h |-> 0], lo |-> 50, up |-> 200, ni |-> -1]
Adv(mm) == m' = mm /\ i' = i + 1 /\ UNCHANGED c
Keep == UNCHANGED buf
ToSet(q) == { q[k] : k \in 1 .. Len(q) }
(* A(2..6) = kind p0 p1 p2 p3 *)
LineEnds == InMap(m, Op[3], Op[4]) /\ InMap(m, Op[5], Op[6])
LineList(q) == IF ~LineEnds THEN q = <<>>
               ELSE q # <<>> /\ q[1] = <<Op[3], Op[4]>> /\ Staircase(<<Op[3], Op[4]>>, <<Op[5], Op[6]>>, Tail(q))
IsLine == Op[2] = 1
Circle == CircleCells(m, Op[3], Op[4], Op[5])
(* the cells the walk of the line takes: the error-accumulating walk; other walks differ only at exact ties *)
RECURSIVE Walk(_, _, _, _, _, _)
Walk(p, e, err, dx, dy, acc) ==
  IF p = e THEN acc
  ELSE LET mx == 2 * err > dy my == 2 * err < dx
           q == <<p[1] + (IF mx THEN Sgn(e[1] - p[1]) ELSE 0), p[2] + (IF my THEN Sgn(e[2] - p[2]) ELSE 0)>>
       IN Walk(q, e, err + (IF mx THEN dy ELSE 0) + (IF my THEN dx ELSE 0), dx, dy, acc \cup {q})
LineCells == IF ~LineEnds THEN {} ELSE LET s == <<Op[3], Op[4]>> e == <<Op[5], Op[6]>> dx == Abs(e[1] - s[1]) dy == -Abs(e[2] - s[2]) IN Walk(s, e, dx + dy, dx, dy, {s})
Area == IF IsLine THEN LineCells ELSE Circle
ObsOk == /\ Op[2] = m.w /\ Op[3] = m.h /\ Len(Op[4]) = m.w * m.h
         /\ \A k \in 1 .. m.w * m.h : LET v == m.v[k] b == Class(m, v) IN
              /\ Op[4][k][1] = v
              /\ Op[4][k][2] = b + 8 * b + 64 * b
TestOk == Op[7] = AllFree(m, Area) /\ Op[8] = AllUnknown(m, Area) /\ Op[9] = AnyOccupied(m, Area)
ListOk == /\ Op[7] = Op[8]
          /\ IF IsLine THEN LineList(Op[7]) ELSE ToSet(Op[7]) = Circle
MoveOk == LET ctr == IF InMap(m, Op[7], Op[8]) THEN <<Op[7], Op[8]>> ELSE <<Op[3], Op[4]>>
              cells == IF ~InMap(m, Op[3], Op[4]) THEN {} ELSE { <<d[1] + ctr[1], d[2] + ctr[2]>> : d \in Disc(Op[5]) }
          IN ToSet(Op[9]) = cells
Step ==
  /\ More
  /\ CASE Op[1] = "all" -> Adv(SetAll(m, Op[2])) /\ Keep
       [] Op[1] = "set" -> Adv(SetOne(m, Op[2], Op[3], Op[4])) /\ Keep
       [] Op[1] = "data" -> Adv(SetData(m, Op[2], Op[3], Op[4], Op[5])) /\ Keep
       [] Op[1] = "lo" -> Adv([m EXCEPT !.lo = Op[2]]) /\ Keep
       [] Op[1] = "up" -> Adv([m EXCEPT !.up = Op[2]]) /\ Keep
       [] Op[1] = "ni" -> Adv([m EXCEPT !.ni = Op[2]]) /\ Keep
       [] Op[1] = "raw" -> Adv([m EXCEPT !.v[Op[2] + 1] = Op[3]]) /\ Keep
       [] Op[1] = "area" -> Adv(SetCells(m, Clip(m, Area), LAMBDA x : Op[7])) /\ Keep
       [] Op[1] = "own" -> Adv(SetCells(m, Clip(m, Area), LAMBDA x : 0)) /\ Keep
       [] Op[1] = "save" -> /\ buf' = [S |-> Clip(m, CircleCells(m, Op[2], Op[3], Op[4])), v |-> m.v] /\ Adv(m)
       [] Op[1] = "restore" -> Adv(SetCells(m, buf.S, LAMBDA x : buf.v[1 + x[2] * m.w + x[1]])) /\ Keep
       [] Op[1] = "o" -> ObsOk = TRUE /\ Adv(m) /\ Keep
       [] Op[1] = "test" -> TestOk = TRUE /\ Adv(m) /\ Keep
       [] Op[1] = "list" -> ListOk = TRUE /\ Adv(m) /\ Keep
       [] Op[1] = "move" -> MoveOk = TRUE /\ Adv(m) /\ Keep
Done == i = Len(Ops) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
