------------------------------ MODULE MazesTrace ----------------------------
EXTENDS Mazes, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
C == Cases[c]
R == C.runs[i + 1]
Wd == Max(2, C.wd)
W == C.cols \div Wd
HH == C.rows \div Wd
(* rooms of Wd pixels, less the wall b between them *)
Wall == Max(1, Wd \div 4)
Px(I, x, y) == I[y + 1][x + 1]
Col(x) == Wd * x
Open(I, b, a, n) == LET o == b \div 2 IN Px(I, Col(n[1]) + o - (IF n[1] > a[1] THEN 1 ELSE 0), Col(n[2]) + o - (IF n[2] > a[2] THEN 1 ELSE 0)) = 1
(* the picture of rooms and passages, pixel by pixel *)
Where(b, p) == LET o == b \div 2 u == p - o x == u \div Wd IN <<x, u % Wd < Wd - b>>          \* the room, or the wall behind it
Picture(I, b, In(_), E) ==
  \A y \in 0 .. C.rows - 1 : LET v == Where(b, y) IN \A x \in 0 .. C.cols - 1 :
    LET u == Where(b, x) p == <<u[1], v[1]>> IN
    (IF u[2] /\ v[2] THEN IF In(p) THEN 1 ELSE 0
     ELSE IF u[2] THEN IF {p, <<p[1], p[2] + 1>>} \in E THEN 1 ELSE 0
     ELSE IF v[2] THEN IF {p, <<p[1] + 1, p[2]>>} \in E THEN 1 ELSE 0
     ELSE 0) = Px(I, x, y)
Passages(I) == { m \in Walls(W, HH) : LET a == CHOOSE a \in m : \E n \in m : n[1] > a[1] \/ n[2] > a[2] n == CHOOSE n \in m : n # a IN Open(I, Wall, a, n) }
(* starts in the margin beyond the last rooms belong to the nearest room *)
Root == <<Min(R.sx \div (16 * Wd), W - 1), Min(R.sy \div (16 * Wd), HH - 1)>>
MazeOk(I) == IF W * HH = 0 THEN Picture(I, Wall, LAMBDA p : FALSE, {})
             ELSE LET E == TLCEval(Passages(I)) IN
                  /\ Picture(I, Wall, LAMBDA p : p \in Rooms(W, HH), E)
                  /\ Perfect(W, HH, E, Root)
EveryOk == i = 0 => { Passages(C.runs[k].img) : k \in 1 .. Len(C.runs) } = Mazes(W, HH, Root)
(* the filling curve of 256 x 256 rooms from room (1, 1), as far as it can be seen *)
Seen == 60
Walk(t, m) == LET s == Step[m] n == <<t[1][1] + s[1], t[1][2] + s[2]>> IN
              <<n, IF n[1] <= Seen /\ n[2] <= Seen THEN t[2] \cup {{t[1], n}} ELSE t[2]>>
Curve == TLCEval(Fold(Walk, <<<<1, 1>>, {}>>, Moves(8, "u"))[2])
CurveOk(I) == Picture(I, 1, LAMBDA p : p[1] >= 1 /\ p[2] >= 1, Curve)
Ok == CASE C.what = "maze" -> MazeOk(R.img)
        [] C.what = "every" -> MazeOk(R.img) /\ EveryOk
        [] OTHER -> CurveOk(R.img)
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0
Next == \/ i < Len(C.runs) /\ Ok = TRUE /\ i' = i + 1 /\ UNCHANGED c
        \/ i = Len(C.runs) /\ UNCHANGED vars
=============================================================================
