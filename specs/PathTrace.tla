------------------------------ MODULE PathTrace ------------------------------
(* Following a path of straight segments: every segment pulls the robot onto its *)
(* line and along it, near segments more; far from all of them the way leads     *)
(* straight to the end of the path.                                              *)
(* kinds of records                                                              *)
(*  path: segs sequence of [a, b] ends, p position, ds distances, w weights,      *)
(*        v velocity, vmax, slow: distance of slowing down                        *)
(*  on:   hits: segments on which the position is, w weights                      *)
(*  made: points, margin, segs                                                    *)
(*  rest: v velocity at the end                                                   *)
(*  run:  xs distances to the end over time, last                                 *)
EXTENDS FixMath, TraceLib
VARIABLE i
Idx(s) == 1..Len(s)
Ang(u) == Atan2(u[2], u[1])
Between(u, w) == Wrap(Ang(w) - Ang(u))
Along(s) == Unit(Sub(s.b, s.a))
Length(s) == Norm(Sub(s.b, s.a))
Reach(s, p) == Dot(Sub(p, s.a), Along(s))
Foot(s, t) == Add(s.a, Scale(t, Along(s)))
Distance(s, p) == Norm(Sub(p, Foot(s, Max(0, Min(Length(s), Reach(s, p))))))
\* three times the way to the line for one along it
Pull(s, p) == LET f == Foot(s, Reach(s, p)) IN
   Unit(Add(Along(s), [k \in 1..2 |-> 3 * (f[k] - p[k])]))
End(r) == r.segs[Len(r.segs)].b
Home(r) == Unit(Sub(End(r), r.p))
\* little weight where the end is behind
Behind(r) == LET d == Dot(Home(r), Along(r.segs[Len(r.segs)])) IN IF d < 0 THEN S + d ELSE S
Raw(r) == [k \in Idx(r.segs) |-> LET q == DivR(3 * S * S, Distance(r.segs[k], r.p))
                                 IN Mul(Behind(r), Mul(q, q))]
LeastOf(s) == s[CHOOSE k \in Idx(s) : \A j \in Idx(s) : s[k] <= s[j]]
Normal(s) == LET t == SumSeq(s) IN [k \in Idx(s) |-> DivR(s[k] * S, t)]
Near1(r) == LeastOf([k \in Idx(r.segs) |-> Distance(r.segs[k], r.p)])
Weights(r) ==
  IF Near1(r) < 8000
  THEN Normal([k \in Idx(r.segs) |-> LET q == DivR(Near1(r) * S, Distance(r.segs[k], r.p)) IN Mul(q, q)])
  ELSE LET w == Raw(r) IN IF SumSeq(w) < S THEN w ELSE Normal(w)
Clear(r) == Near1(r) >= 8000 \/ Behind(r) > 1200
\* the pulls hang on the chain of segments from the last one to the first
RECURSIVE Hang(_, _)
Hang(r, k) == IF k = Len(r.segs) THEN Between(Home(r), Along(r.segs[k]))
              ELSE Hang(r, k + 1) + Between(Along(r.segs[k + 1]), Along(r.segs[k]))
Steep(r) == \/ Abs(Between(Home(r), Along(r.segs[Len(r.segs)]))) > 31000
            \/ \E k \in 2..Len(r.segs) : Abs(Between(Along(r.segs[k]), Along(r.segs[k - 1]))) > 31000
JudgePath(r) ==
  LET w == Weights(r)
      turn == SumSeq([k \in Idx(r.segs) |-> Mul(w[k], Hang(r, k) +
                         Between(Along(r.segs[k]), Pull(r.segs[k], r.p)))])
  IN Clause("distance", \A k \in Idx(r.segs) : Near(r.ds[k], Distance(r.segs[k], r.p), 5))
     \cup Clause("shares", /\ Near(SumSeq(r.w), S, 3) /\ \A k \in Idx(r.w) : r.w[k] >= 0
                           /\ ~Clear(r) \/ \A k \in Idx(w) : Near(r.w[k], w[k], 60))
     \cup Clause("direction", Steep(r) \/ ~Clear(r) \/ Abs(Wrap(Ang(r.v) - Ang(Home(r)) - turn)) <= 300)
     \cup Clause("speed", Near(Norm(r.v), Mul(r.vmax, Min(S, DivR(Norm(Sub(End(r), r.p)) * S, r.slow))), 8))
Judge(r) ==
  CASE r.kind = "path" -> JudgePath(r)
    [] r.kind = "on" -> LET n == Cardinality({k \in Idx(r.hits) : r.hits[k]}) IN
         Clause("shared by the segments", /\ r.w[Len(r.w)] = 0
            /\ \A k \in Idx(r.hits) : Near(r.w[k], IF r.hits[k] THEN DivR(S, n) ELSE 0, 1))
    [] r.kind = "made" -> Clause("segments", /\ Len(r.segs) = Len(r.points) - 1
            /\ \A k \in Idx(r.segs) : LET e == Unit(Sub(r.points[k + 1], r.points[k])) IN
                 /\ NearVec(r.segs[k].a, Add(r.points[k], Scale(r.margin, e)), 3)
                 /\ NearVec(r.segs[k].b, Sub(r.points[k + 1], Scale(r.margin, e)), 3))
    [] r.kind = "rest" -> Clause("rest", r.v = <<0, 0>>)
    [] r.kind = "run" -> Clause("reaches the end", r.left <= 800)
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
