--------------------------- MODULE AvoidanceTrace ---------------------------
(* Recorded calls of the rotational avoider's building blocks.                  *)
EXTENDS DirectionSpace, TraceLib
VARIABLE i
T == 40
Judge(r) ==
  CASE r.f = "tangent" ->
         Clause("finite", Finite(r.out))
    \cup Clause("unit", Near(Norm(r.out), S, T))
    \cup Clause("on-cone", Near(Dot(r.out, Neg(r.n)), Cos(r.rad), T))
    \cup Clause("definition", NearVec(r.out, Tangent(r.v, r.n, r.ref, r.rad), 2 * T))
    [] r.f = "aligned" -> Clause("unchanged", Finite(r.out) /\ NearVec(Unit(r.out), Unit(r.v), T))
    [] r.f = "rotation-weight" ->
         Clause("bounded", r.out >= 0 /\ r.out <= DivR(S * S, Max(S, r.g)) + 2)
    \cup Clause("surface", r.g <= S => r.out = S)
    \cup Clause("decreases-with-distance", r.farther <= r.out + 2)
    \cup Clause("definition", Near(r.out, RotationWeight(r.c, r.n, r.ref, r.g, r.rad, r.p), T))
    [] r.f = "smooth-weight" ->
         Clause("bounded", r.out >= 0 /\ r.out <= DivR(S * S, r.g) + 2)
    \cup Clause("definition", Near(r.out, SmoothWeight(r.c, r.b, r.ref, r.g, r.rad, r.p), T))
    [] r.f = "pseudo-tangent" ->
         Clause("finite", Finite(r.out))
    \cup Clause("kept-outside", (2 * Norm(LogOf(r.c, r.b)) > r.rad + 5 /\ ~r.tail) => NearVec(Unit(r.out), Unit(r.c), T))
    \cup Clause("on-cone", (2 * Norm(LogOf(r.c, r.b)) < r.rad - 5 \/ r.tail) => Near(Dot(Unit(r.out), r.b), Cos(r.rad), T))
    \cup Clause("definition", (2 * Norm(LogOf(r.c, r.b)) < r.rad - 5 \/ r.tail) =>
           NearVec(r.out, ExpOf(FarOf(LogOf(r.ref, r.b), LogOf(r.c, r.b), DivR(r.rad, 2)), r.b), 2 * T))
    [] r.f = "slowing" ->
         Clause("bounded", r.out >= 0 /\ r.out <= S)
    \cup Clause("stops-at-surface", (r.g <= S /\ Dot(r.v, r.n) < -11) => r.out = 0)
    \cup Clause("free-away", Dot(r.v, r.n) > 0 => r.out = S)
    \cup Clause("faster-with-distance", r.farther >= r.out - 2)
    \cup Clause("definition", Near(r.out, Slowing(r.v, r.n, r.g, r.k, r.root), T))
    \cup Clause("velocity", NearVec(r.vel, Scale(Mul(r.mag, r.out), r.v), T))
    [] r.f = "limit" ->
         Clause("definition", NearVec(r.out,
            LET heads == [k \in 1..Len(r.ns) |-> DivR(Dot(r.v, r.ns[k]) * S, r.gs[k])]
                worst == CHOOSE k \in 1..Len(r.ns) : \A j \in 1..Len(r.ns) : heads[k] <= heads[j]
            IN IF heads[worst] >= 0 THEN Scale(r.mag, r.v)
               ELSE Scale(Mul(r.mag, S + heads[worst]), r.v), T))
    \cup Clause("stops-at-every-surface", \A k \in 1..Len(r.ns) :
           (r.gs[k] = S /\ Dot(r.v, r.ns[k]) <= -S + 20) => Norm(r.out) <= T)
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
