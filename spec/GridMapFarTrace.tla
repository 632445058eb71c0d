--------------------------- MODULE GridMapFarTrace --------------------------
(* Recorded histories of maps of many cells.  The contents are a pattern, (v0 + k dv)  *)
(* mod 251 for the cell with number k, but for the cells of ex, a function of numbers. *)
(* An observation lists every cell that differs from the pattern and shows some cells. *)
EXTENDS GridMap, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, f, buf
vars == <<c, i, f, buf>>
Ops == Cases[c].ops
Op == Ops[i + 1]
None == [k \in {} |-> 0]
Init == \E k \in 1 .. Len(Cases) : /\ c = k /\ i = 0 /\ buf = None
          /\ f = [w |-> Cases[k].w, h |-> Cases[k].h, v0 |-> 0, dv |-> 0, ex |-> None, lo |-> 50, up |-> 200, ni |-> -1]
Num(x, y) == y * f.w + x
Val(k) == IF k \in DOMAIN f.ex THEN f.ex[k] ELSE (f.v0 + k * f.dv) % 251
Cell(x, y) == Val(Num(x, y))
Over(e, g) == [k \in DOMAIN e \cup DOMAIN g |-> IF k \in DOMAIN e THEN e[k] ELSE g[k]]
Put(e) == [f EXCEPT !.ex = Over(e, f.ex)]
ToSet(q) == { q[k] : k \in 1 .. Len(q) }
IsLine == Op[2] = 1
LineEnds == InMap(f, Op[3], Op[4]) /\ InMap(f, Op[5], Op[6])
RECURSIVE Walk(_, _, _, _, _, _)
Walk(p, e, err, dx, dy, acc) ==
  IF p = e THEN acc
  ELSE LET mx == 2 * err > dy my == 2 * err < dx
           q == <<p[1] + (IF mx THEN Sgn(e[1] - p[1]) ELSE 0), p[2] + (IF my THEN Sgn(e[2] - p[2]) ELSE 0)>>
       IN Walk(q, e, err + (IF mx THEN dy ELSE 0) + (IF my THEN dx ELSE 0), dx, dy, acc \cup {q})
LineCells == IF ~LineEnds THEN {} ELSE LET s == <<Op[3], Op[4]>> e == <<Op[5], Op[6]>> dx == Abs(e[1] - s[1]) dy == -Abs(e[2] - s[2]) IN Walk(s, e, dx + dy, dx, dy, {s})
Circle == CircleCells(f, Op[3], Op[4], Op[5])
Area == IF IsLine THEN LineCells ELSE Circle
Nums(S) == { Num(p[1], p[2]) : p \in { q \in S : InMap(f, q[1], q[2]) } }
ObsOk == /\ Op[2] = f.w /\ Op[3] = f.h
         /\ ToSet(Op[4]) = { <<k, f.ex[k]>> : k \in { n \in DOMAIN f.ex : f.ex[n] # (f.v0 + n * f.dv) % 251 } }
         /\ \A n \in DOMAIN Op[5] : LET q == Op[5][n] v == Cell(q[1], q[2]) b == Class(f, v) IN q[3] = v /\ q[4] = b + 8 * b + 64 * b
TestOk == LET A == Nums(Area) IN /\ Op[7] = (\A k \in A : FreeVal(f, Val(k)))
                                /\ Op[8] = (\A k \in A : NoInfoVal(f, Val(k)))
                                /\ Op[9] = (\E k \in A : OccVal(f, Val(k)))
ListOk == /\ Op[7] = Op[8]
          /\ IF ~IsLine THEN ToSet(Op[7]) = Circle
             ELSE IF ~LineEnds THEN Op[7] = <<>>
             ELSE Op[7] # <<>> /\ Op[7][1] = <<Op[3], Op[4]>> /\ Staircase(<<Op[3], Op[4]>>, <<Op[5], Op[6]>>, Tail(Op[7]))
Adv(g) == f' = g /\ i' = i + 1 /\ UNCHANGED c
Keep == UNCHANGED buf
Step ==
  /\ i < Len(Ops)
  /\ CASE Op[1] = "data" -> Adv([f EXCEPT !.w = Op[2], !.h = Op[3], !.v0 = Op[4], !.dv = Op[5], !.ex = None]) /\ Keep
       [] Op[1] = "set" -> Adv(Put([k \in {Num(Op[2], Op[3])} |-> Op[4]])) /\ Keep
       [] Op[1] = "raw" -> Adv(Put([k \in {Op[2]} |-> Op[3]])) /\ Keep
       [] Op[1] = "lo" -> Adv([f EXCEPT !.lo = Op[2]]) /\ Keep
       [] Op[1] = "ni" -> Adv([f EXCEPT !.ni = Op[2]]) /\ Keep
       [] Op[1] = "area" -> Adv(Put([k \in Nums(Area) |-> Op[7]])) /\ Keep
       [] Op[1] = "save" -> buf' = [k \in Nums(CircleCells(f, Op[2], Op[3], Op[4])) |-> Val(k)] /\ Adv(f)
       [] Op[1] = "restore" -> Adv(Put(buf)) /\ Keep
       [] Op[1] = "d" -> ObsOk = TRUE /\ Adv(f) /\ Keep
       [] Op[1] = "test" -> TestOk = TRUE /\ Adv(f) /\ Keep
       [] Op[1] = "list" -> ListOk = TRUE /\ Adv(f) /\ Keep
Next == Step \/ (i = Len(Ops) /\ UNCHANGED vars)
=============================================================================
