----------------------------- MODULE MovingTrace -----------------------------
(* Velocity which moving, turning and growing obstacles hand over to the robot. *)
(* record: x position, bodies: sequence of [g distance value, at, lin, ang, grow], *)
(*         v0 velocity among the same obstacles at rest, v velocity, rel: as     *)
(*         computed on its own                                                    *)
EXTENDS Weights, TraceLib
VARIABLE i
Shares(b) == Closeness([j \in 1..Len(b) |-> b[j].g], S, 1, TRUE)
Influence(g) == IF g <= S THEN S ELSE Exp(S - g)
Turning(ang, r) == IF Len(r) = 2 THEN <<-Mul(ang[1], r[2]), Mul(ang[1], r[1])>>
   ELSE << Mul(ang[2], r[3]) - Mul(ang[3], r[2]), Mul(ang[3], r[1]) - Mul(ang[1], r[3]),
           Mul(ang[1], r[2]) - Mul(ang[2], r[1]) >>
Body(x, b) == LET r == Sub(x, b.at) IN
   Add(b.lin, Add(Scale(Influence(b.g), Turning(b.ang, r)), Scale(b.grow, r)))
RECURSIVE Total(_, _, _, _)
Total(x, b, w, j) == IF j = 0 THEN Zero(Len(x))
                     ELSE Add(Scale(w[j], Body(x, b[j])), Total(x, b, w, j - 1))
Judge(r) ==
  LET rel == Total(r.x, r.bodies, Shares(r.bodies), Len(r.bodies)) IN
     Clause("finite", Finite(r.v))
  \cup Clause("velocity-of-the-bodies", NearVec(r.rel, rel, r.tol))
  \cup Clause("moves-along", NearVec(Sub(r.v, r.v0), rel, r.tol))
  \cup Clause("rest-without-motion",
        (\A j \in 1..Len(r.bodies) : LET b == r.bodies[j] IN
            b.lin = Zero(Len(r.x)) /\ b.grow = 0 /\ \A k \in 1..Len(b.ang) : b.ang[k] = 0)
        => NearVec(r.v, r.v0, 1))
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
