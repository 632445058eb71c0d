----------------------------- MODULE VectorsMC -----------------------------
(* Laws of the vectors of Vectors on all pairs within N: what the recorded          *)
(* operations are compared with is a vector space with quarter turns.               *)
EXTENDS Vectors
CONSTANT N
VARIABLES p, q, f
Pts == (0 - N .. N) \X (0 - N .. N)
Init == p \in Pts /\ q \in Pts /\ f \in 0 - 2 .. 2
Next == UNCHANGED <<p, q, f>>
Laws == /\ Plus(p, q) = Plus(q, p) /\ Plus(Diff(p, q), q) = p /\ Diff(p, q) = Plus(p, Neg(q))
        /\ Times(Plus(p, q), f) = Plus(Times(p, f), Times(q, f))
        /\ DotP(p, q) = DotP(q, p) /\ DotP(p, Ortho(p)) = 0 /\ DotP(Ortho(p), Ortho(p)) = DotP(p, p) /\ Ortho(Ortho(p)) = Neg(p)
        /\ (p # <<0, 0>> => p[1] * Ortho(p)[2] - p[2] * Ortho(p)[1] < 0)          \* clockwise
        /\ Within(p, q, 0) = (p = q) /\ Within(p, q, N) = Within(q, p, N) /\ (Less(p, q, N) => Within(p, q, N)) /\ (Within(p, q, N) => Less(p, q, N + 1))
=============================================================================
