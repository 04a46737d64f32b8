----------------------------- MODULE SurfaceTrace -----------------------------
(* Single evaluations close to or inside an obstacle, and in free space.         *)
EXTENDS Scene, TraceLib
VARIABLE i
Scenes == Payload.scenes
Mul3(r) == LET sh == Scenes[r.scene][r.shape] IN Dot(r.v, Normal(sh, r.x))
Judge(r) ==
  LET sc == Scenes[r.scene] sh == sc[r.shape] IN
  CASE r.f = "surface" ->
         Clause("finite", Finite(r.v))
    \cup Clause("placed", Near(Gap(sh, r.x), -r.depth, 3 + (IF r.depth > 10 THEN 2000 ELSE 0)))
         \* on the surface and inside: not farther in; 1 mm outside at most creeping
    \cup Clause("not-inwards", Dot(Sub(r.v, r.body), Normal(sh, r.x)) >=
                 (IF r.depth >= 0 THEN -80 ELSE -400))
    \cup Clause("pushed-out", (r.single /\ r.depth > 10) =>
                 Dot(Sub(r.v, r.body), Normal(sh, r.x)) >= 100)
    \cup Clause("speed", Norm(Sub(r.v, r.body)) <= r.s0 + 10)
    [] r.f = "free" -> Clause("as-without-obstacles", NearVec(r.v, r.v0, r.tol))
    [] r.f = "same" -> Clause("same-velocity", NearVec(r.v, r.w, 5))
    [] r.f = "turned" ->
         Clause("turns-with-the-frame",
            NearVec(r.w, <<Mul(r.c, r.v[1]) - Mul(r.s, r.v[2]),
                           Mul(r.s, r.v[1]) + Mul(r.c, r.v[2])>>, 5))
    [] r.f = "attractor" -> Clause("rests", r.v = Zero(Len(r.v)))
    [] r.f = "shifted" -> Clause("moves-along", NearVec(r.w, Add(r.v, r.body), 5))
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
