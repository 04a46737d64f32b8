----------------------------- MODULE Influence -----------------------------
(* The influence of the components of obstacle trees and how they slow down,    *)
(* in any dimension.                                                            *)
(* record: conv direction of convergence, s0 speed of the dynamics, rad radius of *)
(*   the cone, p power, rep depth of full repulsion, v velocity,                  *)
(*   trees: sequence of [rn, rref: normal and inward direction of the root,       *)
(*      comps: sequence of [g distance value, og distance value of the parent     *)
(*      where the surface is met, dotp, refs: inward directions from the component *)
(*      to the root, n: normal, tail, depth: relative depth inside]]              *)
(* or [gs, ns: distance values and normals of all components, avg, g: averaged]  *)
EXTENDS DirectionSpace, Weights, TraceLib
RECURSIVE MaxOf(_)
MaxOf(s) == IF Len(s) = 1 THEN s[1] ELSE Max(s[1], MaxOf(Tail(s)))
LeastOf(s) == -MaxOf([k \in Idx(s) |-> -s[k]])
\* ---- influences
Gammas(t) == [k \in Idx(t.comps) |-> t.comps[k].g]
Rotation(r, t) == RotationWeight(r.conv, t.rn, t.rref, LeastOf(Gammas(t)), 15708, r.p)
Occlusion(c) == IF c.og >= S THEN S ELSE IF c.dotp >= S THEN 0
                ELSE PowR(c.og, Min(DivR(S * S, S - c.dotp), 200000))
Shared(r, t) == LET p == Proportion(Closeness(Gammas(t), S, 1, FALSE)) w == Rotation(r, t) IN
    [k \in Idx(t.comps) |-> Mul(Mul(p[k], w), Occlusion(t.comps[k]))]
Totals(sh) == [k \in Idx(sh) |-> SumSeq(sh[k])]
Influences(r, sh) == LET l == Limited(Totals(sh)) IN
   [k \in Idx(r.trees) |-> LET t == SumSeq(sh[k]) IN
      [j \in Idx(sh[k]) |-> IF t = 0 THEN 0 ELSE DivR(l[k] * sh[k][j], t)]]
\* ---- the cone around a component, wider inside of it
Cone(r, c) == IF c.g >= S THEN r.rad ELSE IF c.depth < r.rep THEN Pi
   ELSE LET w == DivR((c.depth - r.rep) * S, S - r.rep) IN Mul(r.rad, w) + Mul(Pi, S - w)
ClearTree(r, t) == /\ Abs(Dot(r.conv, t.rn)) > 60
                   /\ AngleBetween(r.conv, t.rref) \in 1200..30200
Flat(ss) == LET RECURSIVE F(_) F(k) == IF k = 0 THEN <<>> ELSE F(k - 1) \o ss[k] IN F(Len(ss))
\* ---- how much the velocity is slowed down: dir direction, wf, cs influences and components
Speed(r, dir, wf, cs) ==
  LET nrm == [d \in Idx(r.conv) |-> SumSeq([j \in Idx(cs) |-> Mul(wf[j], cs[j].n[d])])]
      away == [k \in Idx(r.trees) |->
                 LET pr == Min(S, Dot(r.conv, r.trees[k].rref)) rw == Rotation(r, r.trees[k]) IN
                 IF pr <= 0 \/ rw <= 0 THEN S
                 ELSE IF S - pr >= rw THEN S ELSE PowR(DivR((S - pr) * S, rw), 2000)]
      slow == Slowing(dir, nrm, DivR(S * S, MaxOf(wf)), 8000, 3)
  IN Mul(r.s0, Min(S, Min(slow, LeastOf(away))))
\* ---- the averaged normal and the distance value among all components
Nearness(g) == IF LeastOf(g) <= S THEN Share([k \in Idx(g) |-> g[k] <= S])
               ELSE LET raw == [k \in Idx(g) |-> Mul(Inv(g[k]), Inv(g[k]))] IN
                    IF SumSeq(raw) > S THEN Proportion(raw) ELSE raw
JudgeAverage(r) ==
  LET w == Nearness(r.gs) IN
       Clause("averaged normal", \A d \in Idx(r.avg) :
                Near(r.avg[d], SumSeq([k \in Idx(w) |-> Mul(w[k], r.ns[k][d])]), 30))
  \cup Clause("averaged distance", Near(r.g, LeastOf(r.gs), 2))
=============================================================================
