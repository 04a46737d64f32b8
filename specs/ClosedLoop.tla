------------------------------ MODULE ClosedLoop ------------------------------
(* A robot driven by the avoider: in every step the position x moves by dt times *)
(* the velocity v which the avoider gives.  The recorded runs must be behaviours  *)
(* of this machine and keep its promises.                                         *)
(*   record: run, k, x [mm], v [1/S m/s], s0 initial speed, dt [ms], scene,       *)
(*           tree: concave obstacle, last: the run ends, attr, within [mm]        *)
EXTENDS Scene, TraceLib
VARIABLES i, x, speed
Scenes == Payload.scenes
Travel(r) == DivR(Norm(r.v) * r.dt, S)
MoveBy(r) == [j \in 1..Len(r.v) |-> DivR(r.v[j] * r.dt, S)]
Starts(r) == r.k = 0
Dist(a, b) == Norm(Sub(a, b))
Judge(r) ==
       Clause("finite", Finite(r.v))
  \cup Clause("continues", (~Starts(r) /\ "jump" \notin DOMAIN r) => NearVec(r.x, x, 2))
  \cup Clause("starts-outside", Starts(r) => SceneGap(Scenes[r.scene], r.x) > 0)
       \* at concave corners the integration may overshoot by one step
  \cup Clause("outside", SceneGap(Scenes[r.scene], r.x) >= -2 - (IF r.tree THEN speed ELSE 0))
  \cup Clause("speed", Norm(r.v) <= r.s0 + 10)
  \cup Clause("reaches-attractor", r.last => Dist(r.x, r.attr) <= r.within)
TraceInit == i = 0 /\ x = <<>> /\ speed = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ LET r == Recs[i + 1] IN
                /\ Report(i + 1, Judge(r)) /\ Final(i + 1)
                /\ x' = Add(r.x, MoveBy(r))
                /\ speed' = Travel(r)
TraceSpec == TraceInit /\ [][TraceNext]_<<i, x, speed>>
=============================================================================
