----------------------------- MODULE RegionTrace -----------------------------
(* Regions of learned motions: recorded shapes, fits and runs.                  *)
(* kinds of records                                                               *)
(*  point: c, k, rad, p; dir, surf: surface point along dir; g: level without a   *)
(*         passage, t, gt: open wall and level with it; n: normal (<<>>: no claim) *)
(*  clean: pts, before, after: centres, labels after, least: samples per cluster   *)
(*  fit:   pts, c, labels, seq: sequence value of each sample, goal, factor,       *)
(*         order: clusters from the root, level, succ of each cluster,             *)
(*         away: recorded distances along the order, rad, next: distances to the   *)
(*         neighbours in the order                                                 *)
(*  aim:   c, k, up, rad, dir, got, hits                                                 *)
(*  share: c, k, a (0: none), p, g: level seen through a, w: shares                *)
(*  run:   levels visited, low: least level of the union on the way, inside,       *)
(*         missed: distance to the attractor at the end                            *)
(*  wall:  v: velocity at the surface, n: normal, on: walls there, up: successors,  *)
(*         middle: in the middle of the passage                                      *)
(*  far, pull: v, want                                                                 *)
(*  word:  word, want                                                              *)
EXTENDS Regions, TraceLib
VARIABLE i
JudgePoint(r) ==
  LET d == Sub(r.p, r.c[r.k]) n == Norm(d)
      s == Sub(r.surf, r.c[r.k]) m == Norm(s)
      b == Beyond(r.c, r.k, r.rad, Out(r.c, r.k, r.rad, r.p))
      sure == 2 * n > r.rad /\ n <= 30000 /\ SumSeq(b) > 500
      edge == Near(m, n, 2)
      only == r.t # 0 /\ OnlyOpen(r.c, r.k, r.rad, r.p, r.t)
      tol == 150 + DivR(r.g, 100)
  IN Clause("surface along the ray", m > 0 /\ NearVec(Unit(s), r.dir, 8))
     \cup Clause("surface", Inside(r.c, r.k, r.rad, r.surf, 6) /\ Outside(r.c, r.k, r.rad, r.surf, -6))
     \cup Clause("level inside", (n + 20 < m /\ n > 0) => (r.g > S /\ Inside(r.c, r.k, r.rad, r.p, 6)))
     \cup Clause("level outside", n > m + 20 => (r.g < S /\ Outside(r.c, r.k, r.rad, r.p, -6)))
     \cup Clause("level on the surface", edge => Near(r.g, S, 8))
     \cup Clause("level", (sure /\ r.g < 100000) =>
                Near(r.g, Gamma(r.c, r.k, r.rad, r.p, 0), tol))
     \cup Clause("passage opens", (sure /\ only) => r.gt = 2000000000)
     \cup Clause("passage only opens", r.gt >= r.g - 4)
     \cup Clause("walls stay", (sure /\ (r.t = 0 \/ b[Max(r.t, 1)] = 0)) => Near(r.gt, r.g, 2 + DivR(r.g, 5000)))
     \cup Clause("level with a passage", (sure /\ r.t # 0 /\ ~only /\ r.g < 60000 /\
                LET w == Shares(b) IN SumSeq([j \in 1..Len(w) |-> IF j = r.t THEN 0 ELSE Max(w[j] - w[r.t], 0)]) > 2000) =>
                LET g == Gamma(r.c, r.k, r.rad, r.p, r.t) IN
                g < 60000 => Near(r.gt, g, 200 + DivR(g, 20)))
     \cup Clause("normal", r.n = <<>> \/ Near(Norm(r.n), S, 3))
     \cup Clause("normal inward", (r.n # <<>> /\ n > 20) => RawDot(r.n, d) < 20 * n)
     \cup Clause("normal of the walls", (r.n # <<>> /\ sure) =>
                NearVec(r.n, NormalOf(r.c, r.k, r.rad, r.p),
                        60 + DivR(IF n < m THEN 500000 ELSE 150000, SumSeq(b))))
     \cup Clause("normal of the surface", (r.n # <<>> /\ edge) =>
            LET on == {j \in Relevant(r.c, r.k, r.rad) : Near(Excess(r.c, r.k, j, r.surf), 0, 8)} IN
            \/ on = {} /\ NearVec(r.n, Neg(Unit(d)), 8)
            \/ \E j \in on : NearVec(r.n, Neg(Toward(r.c, r.k, j)), 8)
            \/ on # {} /\ Near(Over(r.c, r.k, r.rad, r.surf), 0, 8)
            \/ Cardinality(on) > 1)
Count(labels, k) == Cardinality({j \in 1..Len(labels) : labels[j] = k})
ClosestTo(c, p, k) == \A j \in 1..Len(c) : Norm(Sub(p, c[k])) <= Norm(Sub(p, c[j])) + 3
JudgeClean(r) ==
  LET kept == {j \in 1..Len(r.before) : \E k \in 1..Len(r.after) : NearVec(r.before[j], r.after[k], 1)}
      before(j) == Cardinality({x \in 1..Len(r.pts) : \A k \in 1..Len(r.before) :
                      Norm(Sub(r.pts[x], r.before[j])) <= Norm(Sub(r.pts[x], r.before[k]))})
  IN Clause("centres kept", Cardinality(kept) = Len(r.after) /\ Len(r.after) >= 1)
     \cup Clause("labels", Len(r.labels) = Len(r.pts) /\ \A x \in 1..Len(r.pts) :
               r.labels[x] \in 1..Len(r.after) /\ ClosestTo(r.after, r.pts[x], r.labels[x]))
     \cup Clause("sparse left", \A k \in 1..Len(r.after) : Count(r.labels, k) * 1000 >= r.least)
     \cup Clause("removed", \A j \in 1..Len(r.before) : before(j) * 1000 >= r.least + 3000 => j \in kept)
\* sequence values in thousandths
Total(r, k) == SumSeq([x \in 1..Len(r.pts) |-> IF r.labels[x] = k THEN r.seq[x] ELSE 0])
Before(r, k, j) == Total(r, k) * Count(r.labels, j) <= Total(r, j) * Count(r.labels, k)
                                                        + Count(r.labels, j) * Count(r.labels, k)
JudgeFit(r) ==
  LET n == Len(r.c)
      own == [x \in 1..Len(r.pts) |-> Norm(Sub(r.pts[x], r.c[r.labels[x]]))]
      RECURSIVE Most(_)
      Most(x) == IF x = 0 THEN 0 ELSE Max(own[x], Most(x - 1))
      RECURSIVE Widest(_)
      Widest(j) == IF j = 0 THEN 0 ELSE Max(r.away[j], Widest(j - 1))
  IN Clause("closest", \A x \in 1..Len(r.pts) : ClosestTo(r.c, r.pts[x], r.labels[x]))
     \cup Clause("chain", Len(r.order) = n /\ {r.order[j] : j \in 1..n} = 1..n)
     \cup Clause("in sequence", \A j \in 1..(n - 1) : Before(r, r.order[j + 1], r.order[j]))
     \cup Clause("levels", \A j \in 1..n : r.level[r.order[j]] = j - 1)
     \cup Clause("successors", \A j \in 1..n :
            r.succ[r.order[j]] = IF j = 1 THEN <<>> ELSE <<r.order[j - 1]>>)
     \cup Clause("distances", \A j \in 1..n : Near(r.away[j],
            IF j = 1 THEN 2 * Norm(Sub(r.c[r.order[1]], r.goal))
            ELSE Span(r.c, r.order[j], r.order[j - 1]), 6))
     \cup Clause("neighbours", \A j \in 1..n : Near(r.next[j],
            IF j = 1 THEN Norm(Sub(r.c[r.order[1]], r.goal))
            ELSE Span(r.c, r.order[j], r.order[j - 1]), 6))
     \cup Clause("radius", Near(r.rad, Mul(r.factor, Max(2 * Most(Len(r.pts)), Widest(n))), 8))
     \cup Clause("regions overlap", \A j \in 2..n :
            2 * r.factor > S => r.order[j - 1] \in Relevant(r.c, r.order[j], r.rad))
JudgeAim(r) ==
  LET toward == Toward(r.c, r.k, r.up)
      HitsWall(u, tol) == LET s == Add(r.c[r.k], Scale(Reach(r.c, r.k, r.rad, u), u)) IN
                 Near(Excess(r.c, r.k, r.up, s), 0, tol)
      \* the passage is well in front of the other walls and the ball
      Clear(u) == LET m == DivR(DivR(Span(r.c, r.k, r.up), 2) * S, Dot(toward, u)) IN
         /\ m + 50 <= r.rad
         /\ \A j \in Relevant(r.c, r.k, r.rad) \ {r.up} : Dot(Toward(r.c, r.k, j), u) > 500 =>
              m + 50 <= DivR(DivR(Span(r.c, r.k, j), 2) * S, Dot(Toward(r.c, r.k, j), u))
  IN Clause("unit", Near(Norm(r.got), S, 3))
     \cup Clause("toward the passage", HitsWall(toward, 3) => (r.hits /\ HitsWall(r.got, 60)))
     \cup Clause("kept", (Dot(r.dir, toward) > 2000 /\ Clear(r.dir)) => NearVec(r.got, r.dir, 8))
     \cup Clause("not further", Dot(r.got, toward) >= Dot(r.dir, toward) - 30)
JudgeShare(r) ==
  LET n == Len(r.c)
      w == IF r.a = 0 THEN 0 ELSE PassShare(r.c, r.k, r.a, r.p, r.g, r.part, r.cut)
  IN Clause("shares", \A j \in 1..n :
       Near(r.w[j], IF j = r.a THEN w ELSE IF j = r.k THEN S - w ELSE 0, 25))
\* nothing leaves but through the passage to the successor
JudgeWall(r) ==
  LET passage == \E j \in 1..Len(r.on) : \E k \in 1..Len(r.up) : r.on[j] = r.up[k]
  IN Clause("finite", Near(Norm(r.v), S, 3))
     \cup Clause("leaves", ~passage => Dot(r.v, r.n) >= -500)
     \cup Clause("passes", (passage /\ r.middle) => Dot(r.v, r.n) < 0)
JudgeRun(r) ==
     Clause("arrives", r.missed <= 600)
     \cup Clause("stays inside", r.inside => r.low >= 9900)
     \cup Clause("descends", r.inside => \A j \in 1..(Len(r.levels) - 1) : r.levels[j + 1] = r.levels[j] - 1)
     \cup Clause("ends in the root", r.levels[Len(r.levels)] = 0)
Judge(r) ==
  CASE r.kind = "point" -> JudgePoint(r)
    [] r.kind = "clean" -> JudgeClean(r)
    [] r.kind = "fit" -> JudgeFit(r)
    [] r.kind = "aim" -> JudgeAim(r)
    [] r.kind = "share" -> JudgeShare(r)
    [] r.kind = "wall" -> JudgeWall(r)
    [] r.kind = "run" -> JudgeRun(r)
    [] r.kind = "far" -> Clause("far away", NearVec(r.v, r.want, 4))
    [] r.kind = "pull" -> Clause("toward the region", NearVec(r.v, r.want, 250))
    [] r.kind = "word" -> Clause("word", r.word = r.want)
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
