----------------------------- MODULE ExpansionMC -----------------------------
(* Design model: (1) a search that asks an analytic expansion for every state it    *)
(* takes, over every order of taking and every answer; (2) how often an expansion   *)
(* that is asked again and again tries to find a curve.                             *)
EXTENDS Expansion
CONSTANTS NMax, HMax, Nodes
VARIABLES s, cfg, tried, count,                \* (2)
          open, closed, prev, at, left, out, phase   \* (1)
cad == <<s, cfg, tried, count>>
sea == <<open, closed, prev, at, left, out, phase>>
Init ==
  /\ \E n \in 1 .. NMax, f, b \in BOOLEAN : cfg = [n |-> n, fwd |-> f, bwd |-> b] /\ s = Begin(n)
  /\ tried = "" /\ count = 0
  /\ open = {1} /\ closed = {} /\ prev = [k \in 1 .. Nodes |-> 0] /\ at = 0 /\ left = {} /\ out = <<>> /\ phase = "take"
(* how often *)
Ask(f, h) == LET n == Asked(cfg, s, f, h) IN
  /\ s' = n[1]
  /\ tried' = (IF n[2] THEN (IF f THEN "forward" ELSE "backward") ELSE "")
  /\ count' = (IF ~Counts(cfg, f) THEN count ELSE IF n[2] \/ s.first < 0 THEN 0 ELSE Min(count + 1, NMax + 1))
AskAny == phase = "take" /\ open = {1} /\ \E f \in BOOLEAN, h \in 0 .. HMax : Ask(f, h) /\ UNCHANGED <<cfg, sea>>
AskForward == \E h \in 0 .. HMax : phase = "take" /\ open = {1} /\ Ask(TRUE, h) /\ UNCHANGED <<cfg, sea>>
Shrinks == [][s'.n <= s.n]_s
Sensible == s.first >= 0 => s.min <= s.first /\ (s.first > 0 => s.n = (cfg.n * s.min) \div s.first)
OnlyForward == tried \in {"", "forward"} /\ (tried = "forward" => cfg.fwd)
(* no more states pass than lie between two tries (the turn of a backward state is lost) *)
Prompt == ~cfg.bwd => count <= cfg.n
Again == (cfg.fwd /\ ~cfg.bwd) => []<>(tried = "forward" \/ phase # "take" \/ open # {1})
(* the search; state k leads to k + 1 and k + 2 *)
Idle == s = Begin(cfg.n) /\ cfg.n = 1 /\ cfg.fwd /\ cfg.bwd
Goals == {1, 2}
Take == /\ phase = "take" /\ Idle /\ \E k \in open : at' = k /\ open' = open \ {k} /\ closed' = closed \cup {k}
        /\ left' = Goals /\ phase' = "ask" /\ UNCHANGED <<prev, out>>
Answer(yes) == /\ phase = "ask" /\ left # {}
               /\ \E g \in left : left' = left \ {g}
               /\ IF yes THEN phase' = "done" ELSE phase' = IF left' = {} THEN "expand" ELSE "ask"
               /\ UNCHANGED <<open, closed, prev, at, out>>
Next2(k) == {n \in {k + 1, k + 2} : n <= Nodes /\ n \notin closed}
Expand == /\ phase = "expand"
          /\ \E S \in SUBSET Next2(at) : open' = open \cup S /\ prev' = [k \in 1 .. Nodes |-> IF k \in S THEN at ELSE prev[k]]
          /\ phase' = "take" /\ UNCHANGED <<closed, at, left, out>>
RECURSIVE Chain(_)
Chain(k) == IF k = 1 THEN <<1>> ELSE Append(Chain(prev[k]), k)
Give == phase = "done" /\ out = <<>> /\ out' = Chain(at) \o <<"tail">> /\ UNCHANGED <<open, closed, prev, at, left, phase>>
Search == (Take \/ Answer(TRUE) \/ Answer(FALSE) \/ Expand \/ Give) /\ UNCHANGED cad
Next == AskAny \/ Search
Spec == Init /\ [][Next]_<<cad, sea>> /\ WF_<<cad, sea>>(AskForward)
Asking == phase = "expand" => left = {}
Answered == out # <<>> => phase = "done" /\ out[1] = 1 /\ out[Len(out)] = "tail" /\ out[Len(out) - 1] = at
                            /\ \A k \in 1 .. Len(out) - 2 : out[k + 1] - out[k] \in {1, 2}
Stops == [][phase = "done" => UNCHANGED <<open, closed, prev, at, left, phase>>]_<<cad, sea>>
=============================================================================
