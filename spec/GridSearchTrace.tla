-------------------------- MODULE GridSearchTrace ---------------------------
(* Histories of one search object: which answers does the specification allow?  *)
(* State: the current map contents and which map the object works on.           *)
(* WHAT selects the property judged: "P01" .. "P05".                             *)
EXTENDS GridSearch, Json, IOUtils
CONSTANT WHAT
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, maps, cur
vars == <<c, i, maps, cur>>
K == Cases[c].alg
Ops == Cases[c].ops
Op == Ops[i + 1]
More == i < Len(Ops)
Init == \E k \in 1 .. Len(Cases) : c = k /\ i = 0 /\ maps = Cases[k].maps /\ cur = 1
Adv == i' = i + 1 /\ UNCHANGED c
TMap == More /\ Op[1] = "m" /\ cur' = Op[2] /\ UNCHANGED maps /\ Adv
TChange == /\ More /\ Op[1] = "c"
           /\ maps' = [maps EXCEPT ![Op[2]].cells[Op[3] + 1] = Op[4]]
           /\ UNCHANGED cur /\ Adv
TOther == More /\ Op[1] = "x" /\ UNCHANGED <<maps, cur>> /\ Adv
(* judgements are evaluated as values ("= TRUE"): TLC unfolds a conjunction or \A inside an action recursively *)
Allowed ==
     LET M == maps[cur]
         s == <<Op[2] \div 16, Op[3] \div 16>>
         g == <<Op[4] \div 16, Op[5] \div 16>>
         p == Op[7]
         ok == Op[6] = 0
     IN CASE WHAT = "P01" -> ok => SoundPath(K, M, s, g, p)
          [] WHAT = "P02" -> (Op[6] = Verdict(M, s, g)) /\ (ok => CompletePath(K, M, s, g, p))
          [] WHAT = "P03" -> ok => CheapPath(K, M, s, g, p)
          [] WHAT = "P04" -> /\ Op[6] = Verdict(M, s, g)
                             /\ ok => /\ SoundPath(K, M, s, g, p)
                                      /\ CompletePath(K, M, s, g, p)
                                      /\ CheapPath(K, M, s, g, p)
                                      /\ Op[8] = Op[9]
          [] WHAT = "P05" -> /\ Op[6] = Verdict(M, s, g)
                             /\ ~ok => p = <<>>
                             /\ ok => CompletePath(K, M, s, g, p)
TQuery == More /\ Op[1] = "q" /\ Allowed = TRUE /\ UNCHANGED <<maps, cur>> /\ Adv
(* searches with an oversearch distance within the history *)
OverAllowed ==
     LET M == maps[cur]
         s == <<Op[2] \div 16, Op[3] \div 16>>
         g == <<Op[4] \div 16, Op[5] \div 16>>
         p == Op[7]
     IN WHAT = "P04" => /\ Op[6] = Verdict(M, s, g)
                        /\ Op[6] = 0 => CompletePath(K, M, s, g, p) /\ OverPath(K, M, s, g, Op[8], p)
TOver == More /\ Op[1] = "o" /\ OverAllowed = TRUE /\ UNCHANGED <<maps, cur>> /\ Adv
(* searches with goal tests and candidates: as those of a fresh object *)
TSame == More /\ Op[1] = "d" /\ (WHAT = "P04" => Op[2] = Op[3]) = TRUE /\ UNCHANGED <<maps, cur>> /\ Adv
Done == i = Len(Ops) /\ UNCHANGED vars
Next == TMap \/ TChange \/ TOther \/ TQuery \/ TOver \/ TSame \/ Done
=============================================================================
