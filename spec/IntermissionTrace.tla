-------------------------- MODULE IntermissionTrace -------------------------
EXTENDS Intermission, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, calls       \* calls[<<policy, variant>>] : calls so far
vars == <<c, i, calls>>
Ops == Cases[c].ops
Op == Ops[i + 1]
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0 /\ calls = <<>>
Key == <<Op[1], Op[2]>>
N == (IF Key \in DOMAIN calls THEN calls[Key] ELSE 0) + 1
Ok == LET f == Fires(Cases[c].pols[Op[1]], N) IN
      /\ Op[3] = (IF f THEN 1 ELSE 0)
      /\ IF Op[2] = 1 /\ f THEN Op[4] /\ Op[6] ELSE Op[5]
(* very many calls in a row: the runs of those that fired *)
Many == /\ i < Len(Ops) /\ Op[3] = -2
        /\ (LET m == N - 1 p == Cases[c].pols[Op[1]]
                F == { m + k : k \in UNION { Op[5][q][1] .. Op[5][q][2] : q \in DOMAIN Op[5] } }
            IN Op[6] /\ F = FiringWithin(p, m + 1, m + Op[4])) = TRUE
        /\ calls' = (Key :> (N - 1 + Op[4])) @@ calls /\ i' = i + 1 /\ UNCHANGED c
Call == i < Len(Ops) /\ Op[3] # -2 /\ Ok = TRUE /\ calls' = (Key :> N) @@ calls /\ i' = i + 1 /\ UNCHANGED c
Done == i = Len(Ops) /\ UNCHANGED vars
Next == Call \/ Many \/ Done
=============================================================================
