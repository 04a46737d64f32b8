--------------------------- MODULE SpatialVelocity ---------------------------
(* The velocity which the avoider of obstacle trees gives in space.  Each       *)
(* component with influence is a branch of directions: the direction of         *)
(* convergence as it is carried along from the root to the component, then the  *)
(* detour around the component.  The velocity points along the weighted mean of *)
(* this tree.  Records: see Influence.                                          *)
EXTENDS Influence, TreeMean
VARIABLE i
Turned(v, a, b) == IF Aligned(a, b) THEN v
                   ELSE RotPlane(v, a, PerpOf(a, b), AngleBetween(a, b))
\* directions of a branch, the root first
RECURSIVE Carried(_, _, _)
Carried(refs, v, k) == IF k = 1 THEN <<>>
   ELSE LET u == TLCEval(Unit(Turned(v, Unit(refs[k]), Unit(refs[k - 1])))) IN <<u>> \o Carried(refs, u, k - 1)
Branch(r, c) ==
  LET way == TLCEval(Carried(c.refs, r.conv, Len(c.refs)))
      u == IF way = <<>> THEN r.conv ELSE way[Len(way)]
      cone == Cone(r, c)
      t2 == IF ~c.tail /\ Dot(u, c.n) >= 0 THEN u ELSE Tangent(u, c.n, c.refs[1], cone)
  IN IF t2 = u \/ cone <= 15709 THEN way \o <<t2>>
     ELSE way \o <<Tangent(u, c.n, c.refs[1], 15708), t2>>
\* the definition has no say where directions are opposed or aligned
ClearBranch(r, c, b) ==
  LET u == IF Len(c.refs) = 1 THEN r.conv ELSE b[Len(c.refs) - 1] IN
  /\ \A k \in 2..Len(c.refs) : AngleBetween(c.refs[k], c.refs[k - 1]) < 28000
  /\ AngleBetween(u, c.refs[1]) \in 1500..29500
  /\ Abs(Dot(u, c.n)) > 60 /\ Abs(Dot(u, c.n)) < 9900
  /\ \A k \in 1..Len(b) : AngleBetween(IF k = 1 THEN r.conv ELSE b[k - 1], b[k]) < 30000
Chosen(wf) == LET RECURSIVE C(_)
                  C(k) == IF k > Len(wf) THEN <<>> ELSE (IF wf[k] > 0 THEN <<k>> ELSE <<>>) \o C(k + 1)
              IN C(1)
Judge(r) ==
  IF "avg" \in DOMAIN r THEN JudgeAverage(r) ELSE
  IF \E k \in Idx(r.trees) : ~ClearTree(r, r.trees[k]) THEN {} ELSE
  LET sh == TLCEval([k \in Idx(r.trees) |-> Shared(r, r.trees[k])])
      wf == TLCEval(Flat(Influences(r, sh)))
      cs == TLCEval(Flat([k \in Idx(r.trees) |-> r.trees[k].comps]))
      on == TLCEval(Chosen(wf))
      bs == TLCEval([j \in Idx(on) |-> [way |-> TLCEval(Branch(r, cs[on[j]])), w |-> wf[on[j]]]])
      tree == TLCEval(Grow([dirs |-> <<Unit(r.conv)>>, par |-> <<0>>, w |-> <<S - SumSeq(wf)>>], bs, 1))
      dir == TLCEval(Expected(tree))
  IN IF on = <<>> \/ MaxOf(wf) <= 2 \/ ~Decided(Totals(sh), 15) \/ \E j \in Idx(on) : ~ClearBranch(r, cs[on[j]], bs[j].way) THEN {} ELSE
       Clause("direction", Norm(r.v) < 100 \/ AngleBetween(dir, Unit(r.v)) <= 80)
  \cup Clause("speed", Near(Norm(r.v), Speed(r, dir, wf, cs), 60))
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
