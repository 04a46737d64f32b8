------------------------------ MODULE GaussTrace ------------------------------
(* An obstacle made of gaussians: every component is the ellipse of the points at *)
(* `factor` standard deviations.  All lengths in units of 1/S.                    *)
(* kinds of records                                                               *)
(*  comp:  shape, p, level, got (distance value), n, ref, proj, circle (in the     *)
(*         frame of the unit circle), back (the inverse), rise (gradients)         *)
(*  off:   shape, q a point inside, p, got: on the surface, seen from q            *)
(*  tree:  shapes, lw (logs of the priors), factor (1/100), root, parent, refs     *)
(*  share: shapes, parent, refs, hits: surface points seen from the refs, p, w     *)
(*  mean:  shapes, root, p, w, ref, n                                              *)
(*  lead:  c kernel point, p, v, got                                               *)
(*  axes:  shape of the component, other: of the ellipse                           *)
(*  turn:  shapes, parent, refs, got: vectors in the direction space or <<>>       *)
(*  fit:   shapes, clusters, factor (1/100)                                        *)
EXTENDS Scene, TraceLib
DS == INSTANCE DirectionSpace
VARIABLE i
Level(sh, p) == Relative(sh, Local(sh, p))
\* outward normal, in numbers as large as possible
Outward(sh, p) ==
  LET x == Local(sh, p)
      u == [j \in 1..Len(x) |-> DivR(DivR(x[j] * S, sh.ax[j]) * 1000, sh.ax[j])]
      m == MaxSeq([j \in 1..Len(x) |-> Abs(u[j])])
  IN ToGlobal(sh, Unit([j \in 1..Len(x) |-> DivR(u[j] * S, m)]))
JudgeComp(r) ==
  LET d == Sub(r.p, r.shape.c) g == Level(r.shape, r.p) m == Norm(d)
      far == m > 1000 /\ g > 100
  IN Clause("level", Near(r.level, g, 3 + g \div 200))
     \cup Clause("outside", Near(r.level, 1000, 3) \/ (r.level > 1000 <=> r.got > S))
     \cup Clause("centre", m > 0 \/ (r.got = 0 /\ r.ref[1] = S /\ r.n[1] = S))
     \cup Clause("distance", ~far \/ Near(r.got, S + DivR(m * (g - 1000), g), 40 + m \div 100))
     \cup Clause("unit", Near(Norm(r.n), S, 3) /\ Near(Norm(r.ref), S, 3))
     \cup Clause("normal", ~far \/ NearVec(r.n, Outward(r.shape, r.p), 60))
     \cup Clause("reference", ~far \/ NearVec(r.ref, Unit(d), 15))
     \cup Clause("gradient", ~far \/ \A k \in 1..Len(r.rise) :
                                 NearVec(r.rise[k], Outward(r.shape, r.p), 60))
     \cup Clause("projection", ~far \/ (Near(Level(r.shape, r.proj), 1000, 6)
                     /\ NearVec(Unit(Sub(r.proj, r.shape.c)), Unit(d), 40)))
     \cup Clause("circle", g > 8000 \/ Near(Norm(r.circle), 5 * g, 15 + g \div 40))
     \cup Clause("inverse", NearVec(r.back, r.p, 2))
OnRay(got, q, p) == LET a == Sub(got, q) b == Sub(p, q) IN
  Norm(a) < 800 \/ Norm(b) < 800 \/ NearVec(Unit(a), Unit(b), 60)
JudgeOff(r) == Clause("surface", Near(Level(r.shape, r.got), 1000, 8))
               \cup Clause("ray", OnRay(r.got, r.q, r.p))
\* ---- the tree: most likely parents, from the most central component
RECURSIVE LogDet(_, _)
LogDet(sh, f) == SumSeq([j \in 1..Len(sh.ax) |-> Ln(sh.ax[j]) - Ln(f * (S \div 100))])
\* log density of component k at a point, without the common constant
LogAt(r, k, p) == LET g == DivR(Level(r.shapes[k], p) * r.factor, 1000) \* standard deviations / 100
                  IN r.lw[k] - LogDet(r.shapes[k], r.factor) - DivR(g * g, 2)
LogOdds(r, p) ==
  LET l == TLCEval([k \in 1..Len(r.shapes) |-> LogAt(r, k, p)])
      top == MaxSeq(l)
      total == top + Ln(SumSeq([k \in 1..Len(l) |-> DivR(Exp(l[k] - top), 2)])) + 6931
  IN [k \in 1..Len(l) |-> l[k] - total]
Odds(r) == TLCEval([k \in 1..Len(r.shapes) |-> TLCEval(LogOdds(r, r.shapes[k].c))])
RECURSIVE Grown(_, _, _)
Grown(r, o, done) ==
  IF Cardinality(done) = Len(r.shapes) THEN TRUE
  ELSE LET pairs == {<<k, j>> \in ((1..Len(r.shapes)) \ done) \X done : TRUE}
           best == CHOOSE x \in pairs : \A y \in pairs : o[x[1]][x[2]] >= o[y[1]][y[2]]
           top == o[best[1]][best[2]]
           tol == 200 + Abs(top) \div 50
           fit == {x \in pairs : r.parent[x[1]] = x[2] /\ o[x[1]][x[2]] >= top - tol}
       IN fit # {} /\ Grown(r, o, done \cup {x[1] : x \in fit})
Mean(r) == LET n == Len(r.shapes) IN
  [j \in 1..Len(r.shapes[1].c) |-> DivR(SumSeq([k \in 1..n |-> r.shapes[k].c[j]]), n)]
Between(a, b, t) == [j \in 1..Len(a) |-> a[j] + DivR(t * (b[j] - a[j]), 20)]
Overlap(a, b) == \E t \in 0..20 : LET p == Between(a.c, b.c, t) IN Level(a, p) < 800 /\ Level(b, p) < 800
JudgeTree(r) ==
  LET n == Len(r.shapes) IN
     Clause("root", \A k \in 1..n : Norm(Sub(r.shapes[r.root].c, Mean(r))) <= Norm(Sub(r.shapes[k].c, Mean(r))) + 8)
     \cup Clause("one root", \A k \in 1..n : r.parent[k] = 0 <=> k = r.root)
     \cup Clause("parents", Grown(r, Odds(r), {r.root}))
     \cup Clause("root point", NearVec(r.refs[r.root], r.shapes[r.root].c, 1))
     \cup Clause("in both", \A k \in 1..n : k = r.root \/ r.parent[k] = 0 \/
            (Overlap(r.shapes[k], r.shapes[r.parent[k]]) =>
                Level(r.shapes[k], r.refs[k]) <= 1000 /\ Level(r.shapes[r.parent[k]], r.refs[k]) <= 1000))
\* ---- shares of the components
Hidden(r, k) == r.parent[k] # 0 /\ Level(r.shapes[r.parent[k]], r.hits[k]) < 1000
Short(r, k) == Norm(Sub(r.shapes[r.parent[k]].c, r.refs[k])) < 400 \/ Norm(Sub(r.p, r.refs[k])) < 400
Facing(r, k) == LET u == Sub(r.p, r.refs[k])  v == Sub(r.shapes[r.parent[k]].c, r.refs[k])
                IN IF Norm(v) = 0 THEN 0 ELSE Dot(Unit(u), Unit(v))
Factor(r, k) ==
  IF r.parent[k] = 0 THEN S
  ELSE LET l == Level(r.shapes[r.parent[k]], r.hits[k])
           c == Facing(r, k)
       IN IF l >= 1000 \/ c <= 0 THEN S ELSE IF c >= S THEN 0 ELSE PowR(10 * l, DivR(S * S, S - c))
JudgeShare(r) ==
  LET N == 1..Len(r.shapes)
      g == TLCEval([k \in N |-> Level(r.shapes[k], r.p) - 1000])
      in == {k \in N : g[k] < 0}
      edge == \E k \in N : Abs(g[k]) < 50
      f == TLCEval([k \in N |-> Factor(r, k)])
      u == TLCEval([k \in N |-> DivR(f[k] * 500, g[k])])
      t == SumSeq(u)
      steep == \E k \in N : f[k] < S /\ (Facing(r, k) > 9300 \/ Short(r, k))
  IN Clause("positive", \A k \in N : r.w[k] >= 0)
     \cup Clause("total", Near(SumSeq(r.w), S, 6))
     \cup Clause("hit", \A k \in N : r.parent[k] = 0 \/
              (Near(Level(r.shapes[k], r.hits[k]), 1000, 8) /\ OnRay(r.hits[k], r.refs[k], r.p)))
     \cup Clause("inside", edge \/ in = {} \/
              \A k \in N : Near(r.w[k], IF k \in in THEN S \div Cardinality(in) ELSE 0, 2))
     \cup Clause("near", edge \/ in # {} \/ t < 200 \/ steep \/
              \A k \in N : Near(r.w[k], DivR(u[k] * S, t), 150 + DivR(2 * S, t)))
     \cup Clause("hidden", edge \/ in # {} \/ \A k \in N : ~Hidden(r, k) \/ f[k] > 0 \/ r.w[k] <= 60)
\* ---- averages
JudgeMean(r) ==
  LET N == 1..Len(r.shapes)
      ref == TLCEval([k \in N |-> Unit(Sub(r.p, r.shapes[k].c))])
      nrm == TLCEval([k \in N |-> Outward(r.shapes[k], r.p)])
      b == ref[r.root]
      wide == \E k \in N : r.w[k] > 0 /\ Dot(ref[k], b) < -8500
      logs == TLCEval([k \in N |-> IF r.w[k] = 0 THEN Zero(Len(r.p)) ELSE DS!LogOf(ref[k], b)])
      a == TLCEval([j \in 1..Len(r.p) |-> SumSeq([k \in N |-> Mul(r.w[k], logs[k][j])])])
      d == TLCEval([j \in 1..Len(r.p) |-> SumSeq([k \in N |-> Mul(r.w[k], nrm[k][j] - ref[k][j])])])
      q == IF Norm(d) < 100 THEN 0 ELSE -Dot(Unit(d), r.ref)
      s == IF q < 7071 THEN S ELSE Mul(14142, q)
      sum == TLCEval(Add(Scale(s, r.ref), d))
      only == {k \in N : r.w[k] > 0}
  IN Clause("unit", Near(Norm(r.ref), S, 4) /\ Near(Norm(r.n), S, 4))
     \cup Clause("outward", Dot(r.n, r.ref) > -30)
     \cup Clause("reference", wide \/ NearVec(r.ref, DS!ExpOf(a, b), 80))
     \cup Clause("normal", Norm(sum) < 2000 \/ NearVec(r.n, Unit(sum), 120))
     \cup Clause("single", Cardinality(only) # 1 \/ \A k \in only :
            NearVec(r.ref, ref[k], 15) /\ NearVec(r.n, nrm[k], 80))
\* ---- others
JudgeLead(r) ==
  LET d == Unit(Sub(r.p, r.c)) s == Dot(r.v, d) IN
  Clause("away", s <= 8 \/ NearVec(r.got, r.v, 1))
  \cup Clause("in", s >= -8 \/ NearVec(r.got, Sub(r.v, Scale(s, d)), 12))
  \cup Clause("never in", Dot(r.got, d) >= -8)
JudgeAxes(r) ==
  Clause("same ellipse", NearVec(r.shape.c, r.other.c, 1) /\ \A a \in 0..7 :
     LET u == [j \in 1..2 |-> r.shape.c[j] + DivR(4000 * (IF j = 1 THEN Cos(3927 * a) ELSE Sin(3927 * a)), S)]
     IN Near(Level(r.shape, u), Level(r.other, u), 12 + Level(r.shape, u) \div 100))
JudgeTurn(r) ==
  Clause("turn", \A k \in 1..Len(r.shapes) :
    IF r.parent[k] = 0 THEN r.got[k] = <<>>
    ELSE LET a == Sub(r.refs[k], r.shapes[r.parent[k]].c) b == Sub(r.shapes[k].c, r.refs[k])
         IN IF Norm(a) < 500 \/ Norm(b) < 500 \/ Dot(Unit(a), Unit(b)) < -8500 THEN TRUE
            ELSE Near(Norm(r.got[k]), AngleBetween(a, b), 80))
JudgeFit(r) ==
  Clause("found", \A c \in 1..Len(r.clusters) : \E k \in 1..Len(r.shapes) :
    /\ Norm(Sub(r.clusters[c].c, r.shapes[k].c)) < 400
    /\ \A t \in 1..Len(r.clusters[c].pts) :
         Near(DivR(Level(r.shapes[k], r.clusters[c].pts[t]) * r.factor, 100), 1000, 200))
Judge(r) == CASE r.kind = "comp" -> JudgeComp(r) [] r.kind = "off" -> JudgeOff(r)
              [] r.kind = "tree" -> JudgeTree(r) [] r.kind = "share" -> JudgeShare(r)
              [] r.kind = "mean" -> JudgeMean(r) [] r.kind = "lead" -> JudgeLead(r)
              [] r.kind = "axes" -> JudgeAxes(r) [] r.kind = "turn" -> JudgeTurn(r)
              [] r.kind = "fit" -> JudgeFit(r)
TraceInit == i = 0
TraceNext == i < Len0 /\ i' = i + 1 /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
