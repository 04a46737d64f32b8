---------------------------- MODULE FidelityTrace ----------------------------
(* What the avoider owes to the initial dynamics, and what its answer may not   *)
(* depend on.                                                                   *)
EXTENDS FixMath, TraceLib
VARIABLE i
Image(m, v) == [j \in 1..Len(v) |-> Dot(m[j], v)]
Judge(r) ==
  CASE r.f = "turned" -> Clause("finite", Finite(r.v) /\ Finite(r.w))
                    \cup Clause("turns-with-the-frame", NearVec(r.w, Image(r.m, r.v), 8))
    [] r.f = "same" -> Clause("finite", Finite(r.v)) \cup Clause("same-velocity", NearVec(r.v, r.w, 5))
    [] r.f = "free" -> Clause("initial-velocity", NearVec(r.v, r.v0, 3))
    [] r.f = "far" -> Clause("fades", NearVec(r.v, r.v0,
                          Mul(r.speed, IF r.tree > 1 THEN 750 * r.tree ELSE 300)))
    [] r.f = "speed" -> Clause("not-faster", Norm(r.v) <= r.s0 + 10)
    [] r.f = "attractor" -> Clause("rests", NearVec(r.v, Zero(Len(r.v)), 1))
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
