-------------------------- MODULE DynamicsSequence --------------------------
(* Seeing dynamics as a turn: from where to start depends on what is known about *)
(* the dynamics, it always ends at the velocity.                                 *)
(* own: the dynamics know their sequence; ref, home: velocity of given default   *)
(* dynamics and the way to the attractor, <<>> where there are none; v velocity; *)
(* got: directions of the sequence, <<>> for none; same: it is the one of its own *)
EXTENDS FixMath, TraceLib
VARIABLE i
Start(r) == IF r.ref # <<>> THEN r.ref ELSE IF r.home # <<>> THEN r.home ELSE r.v
Moves(u) == u # Zero(Len(u))
Judge(r) ==
  IF r.own THEN Clause("own", r.same)
  ELSE IF ~Moves(Start(r)) \/ ~Moves(r.v) THEN Clause("none", r.got = <<>>)
  ELSE Clause("turns", Len(r.got) = 2)
       \cup Clause("start", Len(r.got) # 2 \/ NearVec(r.got[1], Unit(Start(r)), 3))
       \cup Clause("end", Len(r.got) # 2 \/ NearVec(r.got[2], Unit(r.v), 6))
       \cup Clause("angle", Len(r.got) # 2 \/ Near(r.angle, AngleBetween(Start(r), r.v), 12))
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
