--------------------------- MODULE LocalConvergence ---------------------------
(* Directions of convergence stored with each obstacle, and joints of walls.    *)
EXTENDS FixMath, TraceLib
VARIABLE i
Par(u, v) == NearVec(Unit(u), Unit(v), 30)
Judge(r) ==
  CASE r.f = "center" -> Clause("follows-the-dynamics", Par(r.v, r.v0))
    [] r.f = "far" -> Clause("towards-attractor", Par(r.v, Sub(r.attr, r.x)))
    [] r.f = "near" -> \* between both, never farther from either than they are apart
         LET full == AngleBetween(r.v0, Sub(r.attr, r.c)) IN
         Clause("turned-at-most", AngleBetween(r.v, Sub(r.attr, r.x)) <= full + 60)
    [] r.f = "same" -> Clause("same", NearVec(r.v, r.w, 5))
    [] r.f = "none" -> Clause("own-velocity", IF r.rest THEN NearVec(Unit(r.v), Unit(Sub(r.c, r.x)), 30)
                                             ELSE NearVec(r.v, r.v0, 5))
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
