--------------------------- MODULE IntermissionMC ---------------------------
(* Design model: the countdown that implements the cadence (fire at zero, reload   *)
(* with N once the initial phase is over) agrees with Fires for every policy.      *)
EXTENDS Intermission
CONSTANTS MaxN, MaxS, MaxCalls
VARIABLES p, n, next, start, fired
vars == <<p, n, next, start, fired>>
Init == p \in (1..MaxN) \X (0..MaxS) /\ n = 0 /\ next = p[2] /\ start = TRUE /\ fired = FALSE
Call == /\ n < MaxCalls /\ n' = n + 1 /\ UNCHANGED p
        /\ LET m == next - 1 IN
           IF m <= 0 \/ start
           THEN /\ fired' = TRUE
                /\ IF m > 0 THEN next' = m /\ UNCHANGED start ELSE next' = p[1] /\ start' = FALSE
           ELSE fired' = FALSE /\ next' = m /\ UNCHANGED start
Spec == Init /\ [][Call]_vars
Agrees == n > 0 => (fired <=> Fires(p, n))
Within == \A a \in 1 .. n : FiringWithin(p, a, n) = { k \in a .. n : Fires(p, k) }
=============================================================================
