----------------------------- MODULE MetricsTrace -----------------------------
(* The measures by which trajectories of several methods are compared.          *)
EXTENDS FixMath, TraceLib
VARIABLE i
Idx(s) == 1..Len(s)
Mean(s) == DivR(SumSeq(s), Len(s))
Square(v) == Dot(v, v)
\* square of the standard deviation
Squared(s, n) == LET m == Mean(s) IN
    DivR(SumSeq([k \in Idx(s) |-> Mul(s[k] - m, s[k] - m)]), n)
Variance(s) == LET m == Mean(s) IN
    DivR(SumSeq([k \in Idx(s) |-> Mul(s[k] - m, s[k] - m)]), Len(s) - 1)
\* ---- trajectories: sequences of positions
Moves(t) == [k \in 1..(Len(t) - 1) |-> Sub(t[k + 1], t[k])]
IsMove(v) == \E k \in Idx(v) : v[k] # 0
Walk(t) == SelectSeq(Moves(t), IsMove)
Field(f, x) == [k \in Idx(f.b) |-> f.b[k] + Dot(f.a[k], x)]
\* pairs <<position, direction>> where the robot moved
RECURSIVE Pairs(_)
Pairs(t) == IF Len(t) < 2 THEN <<>>
            ELSE LET v == Sub(t[2], t[1]) IN
                 (IF IsMove(v) THEN <<[x |-> t[1], u |-> Unit(v)]>> ELSE <<>>) \o Pairs(Tail(t))
Error(t, c, rad) == Mean([k \in Idx(t) |-> Abs(Square(Sub(t[k], c)) - Mul(rad, rad))])
Acceleration(t, h) ==
  LET m == Moves(t) IN
  Mean([k \in 1..(Len(m) - 1) |->
     Square([j \in Idx(m[k]) |-> DivR(DivR((m[k + 1][j] - m[k][j]) * S, h) * S, h)])])
Smoothness(t) == LET w == Walk(t) IN Mean([k \in 1..(Len(w) - 1) |-> Dot(Unit(w[k + 1]), Unit(w[k]))])
Deviation(t, f) == LET p == Pairs(t) IN Mean([k \in Idx(p) |-> Square(Sub(p[k].u, Field(f, p[k].x)))])
Agreement(t, f) == LET p == Pairs(t) IN
  Mean([k \in Idx(p) |-> LET v == Field(f, p[k].x) IN IF IsMove(v) THEN Dot(p[k].u, Unit(v)) ELSE 0])
\* ---- tables of runs
And(cols) == [k \in Idx(cols[1]) |-> \A j \in Idx(cols) : cols[j][k]]
Count(s) == Cardinality({k \in Idx(s) : s[k]})
Pick(s, sel) == LET r == SelectSeq([k \in Idx(s) |-> k], LAMBDA k : sel[k]) IN [k \in Idx(r) |-> s[r[k]]]
\* ---- printed rows: hundredths of what is shown
Shown(r, v) ==
  CASE r.kind = "share" -> DivR(v * 10000, r.runs)
    [] r.kind = "value" -> DivR(v, 100)
    [] r.kind = "value4" -> v * 100
    [] r.kind = "percent" -> v
    [] r.kind = "turn" -> DivR(S - v, 200)
    [] r.kind = "turn4" -> (S - v) * 50
\* fractions and shares are printed without digits
Digits(r, k) == IF r.kind = "share" \/ (r.kind = "percent" /\ Len(r.value) = 1) THEN 51 ELSE 1
Judge(r) ==
  CASE r.f = "printed" -> Clause("shown", Len(r.shown) = Len(r.value)
          /\ \A k \in Idx(r.value) : Near(r.shown[k], Shown(r, r.value[k]), Digits(r, k)))
    [] r.f = "error" -> Clause("definition", Near(r.out, Error(r.t, r.c, r.rad), 15))
    [] r.f = "acceleration" -> Clause("definition", Near(r.out, Acceleration(r.t, r.h), 60))
    [] r.f = "smoothness" -> Clause("definition", Near(r.out, Smoothness(r.t), 15))
    [] r.f = "deviation" -> Clause("definition", Near(r.out, Deviation(r.t, r.field), 25))
    [] r.f = "agreement" -> Clause("definition", Near(r.out, Agreement(r.t, r.field), 15))
    [] r.f = "unit" -> Clause("directions", LET w == SelectSeq(r.v, IsMove) IN
           Len(r.out) = Len(w) /\ \A k \in Idx(w) : NearVec(r.out[k], Unit(w[k]), 5))
    [] r.f = "summary" ->
         Clause("runs", r.runs = Len(r.lengths))
    \cup Clause("finished", r.finished = Cardinality({k \in Idx(r.lengths) : r.lengths[k] >= r.full}))
    \cup Clause("stuck", r.stuck = Cardinality({k \in Idx(r.lengths) : r.lengths[k] < r.full}))
    \cup UNION {Clause(r.names[k] \o "-mean", Near(r.mean[k], Mean(r.values[k]), 8)) : k \in Idx(r.names)}
    \cup UNION {Clause(r.names[k] \o "-spread",
            r.spread[k] < 0 \/ Near(Mul(r.spread[k], r.spread[k]), Squared(r.values[k], Len(r.values[k])), 6 + r.spread[k] \div 500)) : k \in Idx(r.names)}
    [] r.f = "common" -> Clause("converged-in-all", r.out = And(r.cols))
    [] r.f = "table" ->
         LET d == Pick(r.distance, r.sel)  o == [k \in Idx(r.free) |-> S - r.free[k]]
             g == Pick(r.gamma, r.sel) IN
         Clause("runs", r.runs = Len(r.sel))
    \cup Clause("converged", Near(r.fraction, DivR(Count(r.own) * S, Len(r.own)), 3))
    \cup Clause("distance", Near(r.dmean, Mean(d), 5) /\ Near(r.dvar, Variance(d), 25))
    \cup Clause("gamma", Near(r.gmean, Mean(g), 5) /\ Near(r.gvar, Variance(g), 25))
    \cup Clause("occupied", Near(r.omean, Mean(Pick(o, r.sel)), 5)
                     /\ Near(Mul(r.ostd, r.ostd), Squared(Pick(o, r.sel), Count(r.sel)), 6 + r.ostd \div 500))
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
