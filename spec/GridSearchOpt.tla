---------------------------- MODULE GridSearchOpt ---------------------------
(* Search options: oversearch with candidates, caller-supplied goal tests, time  *)
(* limit, interruption.  One recorded search per behaviour; ev as in              *)
(* GridSearchEvents plus kind 3 = goal test called, 4 = candidate callback called *)
(* (end cell of path), 5 = progress callback.                                    *)
EXTENDS GridSearch, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
Case == Cases[c]
K == Case.alg
M == Case.map
Ev == Case.ev
P == Case.path
S == <<Case.s % M.w, Case.s \div M.w>>
G == <<Case.g % M.w, Case.g \div M.w>>
Pick(f(_)) == SelectSeq(Ev, f)
IsServe(e) == e[1] = 1
Served == Pick(IsServe)
N(e) == <<e[2], e[3]>>
F(e) == e[4] + H(K, N(e), G)
D2(x) == (x[1] - G[1]) * (x[1] - G[1]) + (x[2] - G[2]) * (x[2] - G[2])
TOL == 5
(* all nodes that entered the open list have left it *)
Exhausted == \A k \in 1 .. Len(Ev) : Ev[k][1] = 0 => \E m \in k + 1 .. Len(Ev) : Ev[m][1] = 1 /\ N(Ev[m]) = N(Ev[k])
EndOf(p) == XY(p[Len(p)])
Chain(p) == /\ p # <<>> /\ XY(p[1]) = S
            /\ \A k \in 1 .. Len(p) - 1 : IsStep(K, XY(p[k]), XY(p[k + 1]))
            /\ \A k \in 2 .. Len(p) : Free(M, p[k][1], p[k][2])

Oversearch ==
  LET sv == Served
      n == Len(sv)
      Cand == { k \in 1 .. n : AtGoal(K, G, N(sv[k])) }
      first == SetMin(Cand)
      calls == Cardinality(Cand)
      Late(k) == F(sv[k]) > F(sv[first]) + Case.over
      accepted == Case.accept > 0 /\ Case.calls >= Case.accept
  IN /\ Case.code = 0
     /\ \A p \in { Case.seen[k] : k \in 1 .. Len(Case.seen) } : Chain(p)
     /\ IF Cand = {} THEN P = <<>> /\ Exhausted /\ Case.calls = 0
        ELSE /\ Chain(P)
             \* nothing is expanded after the cost estimate has left the oversearch distance
             /\ \A k \in first .. n - 1 : F(sv[k]) <= F(sv[first]) + Case.over + TOL
             /\ IF accepted
                THEN /\ Case.calls = Case.accept /\ calls = Case.accept
                     /\ n \in Cand /\ EndOf(P) = N(sv[n]) /\ P = Case.seen[Len(Case.seen)]
                ELSE /\ F(sv[n]) >= F(sv[first]) + Case.over - TOL \/ Exhausted
                     /\ \E k \in Cand : N(sv[k]) = EndOf(P)
                     /\ \A k \in Cand : D2(EndOf(P)) <= D2(N(sv[k]))
             /\ Case.accept >= 0 =>
                  /\ Case.calls = calls /\ Len(Case.seen) = calls
                  /\ LET cs == SelectSeq(sv, LAMBDA e : AtGoal(K, G, N(e))) IN
                     \A k \in 1 .. calls : EndOf(Case.seen[k]) = N(cs[k])

GoalSet == { Case.goals[k] : k \in 1 .. Len(Case.goals) }
Passes(x) == x[2] * M.w + x[1] \in GoalSet
GoalTest ==
  LET evs == SelectSeq(Ev, LAMBDA e : e[1] \in {1, 3})
      sv == Served n == Len(sv)
  IN /\ Case.code = 0
     /\ Len(evs) = 2 * n
     /\ \A k \in 1 .. n : evs[2 * k - 1][1] = 1 /\ evs[2 * k][1] = 3 /\ N(evs[2 * k - 1]) = N(evs[2 * k])
     /\ \A k \in 1 .. n - 1 : ~Passes(N(sv[k]))
     /\ IF n > 0 /\ Passes(N(sv[n])) THEN Chain(P) /\ EndOf(P) = N(sv[n])
        ELSE P = <<>> /\ Exhausted /\ \A x \in Reachable(K, M, S) : ~Passes(x)

TimeLimit ==
  /\ Case.code = 0
  /\ IF Case.limit = 0 THEN P = <<>> /\ Served = <<>>
     ELSE SoundPath(K, M, S, G, P) /\ CompletePath(K, M, S, G, P) /\ CheapPath(K, M, S, G, P)

(* an interrupted search takes nothing from the open list any more; what it had left does not matter *)
Ordinary == Case.code = 0 /\ SoundPath(K, M, S, G, P) /\ CompletePath(K, M, S, G, P) /\ CheapPath(K, M, S, G, P)
Interrupted ==
  IF Case.after < 0 THEN Case.code = 7 /\ P = <<>> /\ Served = <<>>
  ELSE IF Case.calls <= Case.after THEN Ordinary
  ELSE /\ Case.calls = Case.after + 1
       /\ Ev[Len(Ev)][1] = 5
       /\ P = <<>> /\ (Case.code = 7 \/ (Case.code = 0 /\ Exhausted))

Ok == CASE Case.mode <= 1 -> Oversearch [] Case.mode = 2 -> GoalTest [] Case.mode = 3 -> TimeLimit [] Case.mode = 4 -> Interrupted
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0
Judge == i = 0 /\ Ok = TRUE /\ i' = 1 /\ UNCHANGED c
Done == i = 1 /\ UNCHANGED vars
Next == Judge \/ Done
=============================================================================
