--------------------------- MODULE PlanarVelocity ---------------------------
(* The velocity which the avoider of obstacle trees gives in the plane.          *)
(* Records: see Influence.                                                       *)
EXTENDS Influence
VARIABLE i
Ang(u) == Atan2(u[2], u[1])
Between(u, w) == Wrap(Ang(w) - Ang(u))
Turn(u, a) == <<Mul(Cos(a), u[1]) - Mul(Sin(a), u[2]), Mul(Sin(a), u[1]) + Mul(Cos(a), u[2])>>
\* ---- where each component would send the robot
\* rotation of the reference directions from the root to the component
RECURSIVE Carried(_, _)
Carried(refs, k) == IF k <= 1 THEN 0 ELSE Between(refs[k], refs[k - 1]) + Carried(refs, k - 1)
Detour(r, c) ==
  LET a0 == Carried(c.refs, Len(c.refs))
      u == Turn(r.conv, a0)
      cone == Cone(r, c)
      t1 == Tangent(u, c.n, c.refs[1], 15708)
      t2 == Tangent(u, c.n, c.refs[1], cone)
  IN IF ~c.tail /\ Dot(u, c.n) >= 0 THEN a0
     ELSE IF cone > 15709 THEN a0 + Between(u, t1) + Between(t1, t2)
     ELSE a0 + Between(u, t2)
\* the definition has no say where directions are opposed or aligned
Clear(r, c) ==
  LET u == Turn(r.conv, Carried(c.refs, Len(c.refs))) IN
  /\ \A k \in 2..Len(c.refs) : Abs(Between(c.refs[k], c.refs[k - 1])) < 30500
  /\ Abs(Between(u, c.refs[1])) \in 600..30800
  /\ Abs(Dot(u, c.n)) > 30 /\ Abs(Dot(u, c.n)) < 9990
Regular(r) == \A k \in Idx(r.trees) : /\ ClearTree(r, r.trees[k])
                 /\ \A j \in Idx(r.trees[k].comps) : Clear(r, r.trees[k].comps[j])
Judge(r) ==
  IF "avg" \in DOMAIN r THEN JudgeAverage(r) ELSE
  IF ~Regular(r) THEN {} ELSE
  LET sh == TLCEval([k \in Idx(r.trees) |-> Shared(r, r.trees[k])])
      wf == TLCEval(Flat(Influences(r, sh)))
      cs == TLCEval(Flat([k \in Idx(r.trees) |-> r.trees[k].comps]))
      turn == SumSeq([j \in Idx(cs) |-> IF wf[j] <= 0 THEN 0 ELSE Mul(wf[j], Detour(r, cs[j]))])
      dir == TLCEval(Turn(r.conv, turn))
  IN IF MaxOf(wf) <= 2 \/ ~Decided(Totals(sh), 15) THEN {} ELSE
       Clause("direction", Norm(r.v) < 100 \/ Abs(Between(dir, r.v)) <= 200
                           \/ Abs(turn) > 62000)
  \cup Clause("speed", Near(Norm(r.v), Speed(r, dir, wf, cs), 60))
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
