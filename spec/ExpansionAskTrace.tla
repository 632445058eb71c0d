-------------------------- MODULE ExpansionAskTrace --------------------------
(* Recorded searches with an analytic expansion that answers by script.            *)
(*  starts, adds: what entered the open list (pv: its predecessor, p: pose).        *)
(*  ops: what was taken from it (id), which goals the expansion was asked for (asks) *)
(*  and what was answered.  gets: how often the expansion's poses were fetched.      *)
(*  tail: those poses.  path: the answer, in the order of the search.  plain: the    *)
(*  answer of a search without expansion (if none was found).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, q, i
vars == <<c, q, i>>
Init == \E k \in 1 .. Len(Cases) : c = k /\ q = 1 /\ i = 0
R == Cases[c].runs[q]
Op == R.ops[i + 1]
CELL == 100000
Within(x, y) == LET lo == (y \div CELL) * CELL IN x >= lo - 1 /\ x <= lo + CELL + 1
Found(o) == \E k \in DOMAIN o.asks : o.asks[k].yes
AskOk(a) == a.map /\ Within(a.p[1], R.to[1]) /\ Within(a.p[2], R.to[2])
Ok ==
  LET asked == {Op.asks[k].to : k \in DOMAIN Op.asks} IN
  /\ \A k \in DOMAIN Op.asks : AskOk(Op.asks[k]) /\ (Op.asks[k].yes => k = Len(Op.asks))
  /\ Cardinality(asked) = Len(Op.asks)
  /\ Found(Op) \/ Len(Op.asks) = Cases[c].goals
  /\ Found(Op) => i + 1 = Len(R.ops) /\ Op.adds = <<>>
Entries == {<<0, k>> : k \in DOMAIN R.starts} \cup UNION {{<<m, k>> : k \in DOMAIN R.ops[m].adds} : m \in DOMAIN R.ops}
Ent(e) == IF e[1] = 0 THEN R.starts[e[2]] ELSE R.ops[e[1]].adds[e[2]]
Later(e, f) == e[1] > f[1] \/ (e[1] = f[1] /\ e[2] > f[2])
Latest(id) == LET S == {e \in Entries : Ent(e).id = id} IN Ent(CHOOSE e \in S : \A f \in S : e = f \/ Later(e, f))
Starts == {R.starts[k].id : k \in DOMAIN R.starts}
RECURSIVE Chain(_)
Chain(id) == LET e == TLCEval(Latest(id)) IN IF id \in Starts THEN <<e.p>> ELSE Append(Chain(e.pv), e.p)
Hit == R.ops # <<>> /\ Found(R.ops[Len(R.ops)])
Turned(C) == [C EXCEPT ![Len(C)] = <<C[Len(C)][1], C[Len(C)][2], R.tail[1][3]>>]
End ==
  /\ R.stray = 0
  /\ R.code = 0 => R.count = Len(R.ops)
  /\ R.code # 0 => R.ops = <<>> /\ R.path = <<>>
  /\ R.gets = IF Hit THEN 1 ELSE 0
  /\ R.path = IF Hit THEN Turned(TLCEval(Chain(R.ops[Len(R.ops)].id))) \o R.tail ELSE R.plain
Next == \/ q <= Len(Cases[c].runs) /\ i < Len(R.ops) /\ Ok = TRUE /\ i' = i + 1 /\ UNCHANGED <<c, q>>
        \/ q <= Len(Cases[c].runs) /\ i = Len(R.ops) /\ End = TRUE /\ q' = q + 1 /\ i' = 0 /\ UNCHANGED c
        \/ q > Len(Cases[c].runs) /\ UNCHANGED vars
=============================================================================
