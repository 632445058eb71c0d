----------------------------- MODULE GridSearch -----------------------------
(* Planar grid searches: what a search over a map has to return.               *)
(* A map is a record [w, h, cells]; cells[1 + y*w + x] is 0 free, 1 occupied,   *)
(* 2 unknown.  A search kind is <<heuristic, N, D, res>>: heuristic 0 none,     *)
(* 1 Euclidean, 2 Manhattan, 3 maximum norm; N = 4 or 8 neighbours; step width  *)
(* D cells.  Costs are integers in units of 10^-5 cells.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

UNIT == 100000
DIAG == 141421
INF == 2000000000
Abs(a) == IF a < 0 THEN -a ELSE a
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
SetMin(S) == CHOOSE a \in S : \A b \in S : a <= b

InMap(M, x, y) == x >= 0 /\ y >= 0 /\ x < M.w /\ y < M.h
Cell(M, x, y) == M.cells[1 + y * M.w + x]
Free(M, x, y) == InMap(M, x, y) /\ Cell(M, x, y) = 0
Occupied(M, x, y) == Cell(M, x, y) = 1
Cells(M) == (0 .. M.w - 1) \X (0 .. M.h - 1)

Offsets4(D) == { <<-D, 0>>, <<D, 0>>, <<0, -D>>, <<0, D>> }
Offsets8(D) == Offsets4(D) \cup { <<a, b>> : a, b \in {-D, D} }
Offsets(K) == IF K[2] = 4 THEN Offsets4(K[3]) ELSE Offsets8(K[3])
StepCost(K, dx, dy) == IF dx # 0 /\ dy # 0 THEN K[3] * DIAG ELSE K[3] * UNIT
IsStep(K, a, b) == <<b[1] - a[1], b[2] - a[2]>> \in Offsets(K)

(* the cells from which the search is content *)
AtGoal(K, g, c) == Abs(c[1] - g[1]) <= K[3] /\ Abs(c[2] - g[2]) <= K[3]

FreeNeighbours(K, M, c) == { n \in { <<c[1] + o[1], c[2] + o[2]>> : o \in Offsets(K) } : Free(M, n[1], n[2]) }

(* shortest distances from s: least fixpoint of relaxation, frontier by frontier *)
RECURSIVE Relax(_, _, _, _)
Relax(K, M, d, F) ==
  IF F = {} THEN d
  ELSE LET T == UNION { FreeNeighbours(K, M, c) : c \in F }
           Best(n) == LET P == { c \in { <<n[1] - o[1], n[2] - o[2]>> : o \in Offsets(K) } : c \in F } IN
                      SetMin({ d[c] + StepCost(K, n[1] - c[1], n[2] - c[2]) : c \in P })
           N == TLCEval([ n \in T |-> Best(n) ])
           I == TLCEval({ n \in T : N[n] < d[n] })
           d2 == TLCEval([ c \in DOMAIN d |-> IF c \in I THEN N[c] ELSE d[c] ])
       IN Relax(K, M, d2, I)
Distances(K, M, s) == Relax(K, M, [ c \in Cells(M) |-> IF c = s THEN 0 ELSE INF ], {s})

(* plain reachability *)
RECURSIVE Flood(_, _, _, _)
Flood(K, M, R, F) == IF F = {} THEN R
                     ELSE LET N == TLCEval(UNION { FreeNeighbours(K, M, c) : c \in F } \ R) IN Flood(K, M, TLCEval(R \cup N), N)
Reachable(K, M, s) == Flood(K, M, {s}, {s})

(* floor(sqrt(n) * 10^5), digit by digit (32-bit safe) *)
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, r) == IF (r + 1) * (r + 1) > n THEN r ELSE ISqrtFrom(n, r + 1)
RECURSIVE Digits(_, _, _)
Digits(r, rem, k) == IF k = 0 THEN r
                     ELSE LET m == rem * 100
                              q == CHOOSE q \in 0..9 : (20 * r + q) * q <= m /\ (q = 9 \/ (20 * r + q + 1) * (q + 1) > m)
                          IN Digits(10 * r + q, m - (20 * r + q) * q, k - 1)
Sqrt5(n) == LET a == ISqrtFrom(n, 0) IN Digits(a, n - a * a, 5)

(* the heuristic value at cell c for goal cell g *)
H(K, c, g) == LET dx == Abs(c[1] - g[1]) dy == Abs(c[2] - g[2]) IN
              CASE K[1] = 0 -> 0
                [] K[1] = 1 -> Sqrt5(dx * dx + dy * dy)
                [] K[1] = 2 -> (dx + dy) * UNIT
                [] K[1] = 3 -> Max(dx, dy) * UNIT
Consistent(K) == K[1] # 2 \/ K[2] = 4
Tol(n) == n + 5

(* ------------------------------------------------ judgement of one answer *)
(* outcome classes of a query from s to g (cells, maybe outside) *)
Verdict(M, s, g) == IF ~InMap(M, s[1], s[2]) THEN 1 ELSE IF Occupied(M, s[1], s[2]) THEN 2
                    ELSE IF ~InMap(M, g[1], g[2]) THEN 3 ELSE IF Occupied(M, g[1], g[2]) THEN 4 ELSE 0

XY(n) == <<n[1], n[2]>>
(* P01: a chain of free neighbouring cells from the start to the goal region *)
SoundPath(K, M, s, g, p) ==
  p # <<>> =>
    /\ XY(p[1]) = s
    /\ AtGoal(K, g, XY(p[Len(p)]))
    /\ \A k \in 1 .. Len(p) - 1 : IsStep(K, XY(p[k]), XY(p[k + 1]))
    /\ \A k \in 2 .. Len(p) : Free(M, p[k][1], p[k][2])
    /\ \A k, m \in 1 .. Len(p) : XY(p[k]) = XY(p[m]) => k = m
    /\ (AtGoal(K, g, s) => Len(p) = 1)

(* P02: a path exactly if the goal region is reachable *)
CompletePath(K, M, s, g, p) == (p # <<>>) <=> \E c \in Reachable(K, M, s) : AtGoal(K, g, c)

(* P03: stored costs are path costs; with a consistent heuristic the path is a cheapest one *)
RECURSIVE CostsAdd(_, _, _, _)
CostsAdd(K, p, k, acc) == IF k > Len(p) THEN TRUE
  ELSE LET a == IF k = 1 THEN 0 ELSE acc + StepCost(K, p[k][1] - p[k-1][1], p[k][2] - p[k-1][2])
       IN Abs(p[k][3] - a) <= Tol(k) /\ CostsAdd(K, p, k + 1, a)
BestTotal(K, M, s, g) == LET d == Distances(K, M, s) IN
                         SetMin({INF} \cup { d[c] + H(K, c, g) : c \in { e \in Cells(M) : AtGoal(K, g, e) /\ d[e] < INF } })
CheapPath(K, M, s, g, p) ==
  p # <<>> => /\ CostsAdd(K, p, 1, 0)
              /\ (Consistent(K) => LET e == p[Len(p)] IN Abs(e[3] + H(K, XY(e), g) - BestTotal(K, M, s, g)) <= 2 * Tol(Len(p)))

(* a search that goes on for a distance after its first candidate: the answer ends in the goal *)
(* region, and with a consistent heuristic no nearer cell of it could have been served in time *)
OverPath(K, M, s, g, over, p) ==
  p # <<>> =>
    LET e == XY(p[Len(p)])
        d == TLCEval(Distances(K, M, s))
        G == TLCEval({ c \in Cells(M) : AtGoal(K, g, c) /\ d[c] < INF })
        F(c) == d[c] + H(K, c, g)
        D2(c) == (c[1] - g[1]) * (c[1] - g[1]) + (c[2] - g[2]) * (c[2] - g[2])
        best == TLCEval(SetMin({ F(c) : c \in G }))
        Served == { c \in G : F(c) + 2 * Tol(Len(p)) < best + over }
    IN /\ XY(p[1]) = s
       /\ e \in G
       /\ \A k \in 1 .. Len(p) - 1 : IsStep(K, XY(p[k]), XY(p[k + 1]))
       /\ \A k \in 2 .. Len(p) : Free(M, p[k][1], p[k][2])
       /\ CostsAdd(K, p, 1, 0)
       /\ Consistent(K) => /\ Abs(p[Len(p)][3] - d[e]) <= 2 * Tol(Len(p))
                           /\ \A c \in Served : D2(e) <= D2(c)
=============================================================================
