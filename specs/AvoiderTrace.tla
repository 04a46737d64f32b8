---------------------------- MODULE AvoiderTrace ----------------------------
(* The rotational avoider of single obstacles, in the plane: every close obstacle *)
(* turns the velocity from the direction of convergence over the wall onto its    *)
(* tangent; obstacles share the say by their importance.                          *)
(* kinds of records                                                               *)
(*  avoid: v0 initial velocity relative to the obstacles, rel their velocity,      *)
(*    s0 speed asked for, conv direction of convergence,                           *)
(*    p power, tail, sticky, v result, obs: sequence of [g distance value, n normal *)
(*    to the free side, b to the wall, ref to the reference point, iw importance,   *)
(*    rad radius of the cone]                                                      *)
(*  sequence: base, init, conv directions, defaults, p, tail, obs, v end        *)
(*  mean: v0, gs distance values, cut, locals velocities around the obstacles, v    *)
(*  meanseq: base, init directions, ws weights, turns: directions of each sequence, v *)
(*  weights: gs, cut, ws, free: nothing is close                                    *)
(*  same: v, w;   keep: v, w equal to the last digit;  still: v                     *)
(*  wall: v velocity relative to the obstacle, n normal, s0, tol                    *)
EXTENDS DirectionSpace, TraceLib
VARIABLE i
Idx(s) == 1..Len(s)
Ang(u) == Atan2(u[2], u[1])
Between(u, w) == Wrap(Ang(w) - Ang(u))
Turn(u, a) == <<Mul(Cos(a), u[1]) - Mul(Sin(a), u[2]), Mul(Sin(a), u[1]) + Mul(Cos(a), u[2])>>
RECURSIVE SumUp(_)
SumUp(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumUp(Tail(s))
LeastIdx(s) == CHOOSE k \in Idx(s) : \A j \in Idx(s) : s[j] > s[k] \/ (s[j] = s[k] /\ k <= j)
\* ---- one obstacle
Beyond(r, o) == AngleBetween(r.conv, o.b) >= o.rad
Weight(r, o) == SmoothWeight(r.conv, o.b, o.ref, o.g, o.rad, r.p)
ConeAt(r, o, rad) == ExpOf(FarOf(LogOf(o.ref, o.b), LogOf(r.conv, o.b), DivR(rad, 2)), o.b)
Surface(r, o) == IF Beyond(r, o) /\ ~r.tail THEN r.conv ELSE ConeAt(r, o, o.rad)
Mid(r, o) == ConeAt(r, o, 15708)
\* from the direction of convergence over the wall to the surface
Detour(r, o, over) ==
  LET s == Surface(r, o) m == Mid(r, o) IN
  IF over THEN Between(r.conv, o.b) + (IF o.rad > 15709 THEN Between(o.b, m) + Between(m, s)
                                       ELSE Between(o.b, s))
  ELSE IF o.rad > 15709 THEN Between(r.conv, m) + Between(m, s) ELSE Between(r.conv, s)
TurnOf(r, o) == LET w == Weight(r, o) IN
   IF w <= 0 THEN 0 ELSE Mul(w, Detour(r, o, TRUE) - Between(r.conv, r.v0))
\* the definition has no say where directions are aligned or opposed
Clear(r, o) ==
  /\ AngleBetween(r.conv, o.ref) \in 1000..30000
  /\ Abs(AngleBetween(r.conv, o.b) - o.rad) > 150
  /\ AngleBetween(r.conv, o.b) \in 200..30800
  /\ AngleBetween(o.ref, o.b) < Min(13500, o.rad - 1000)
  /\ LET s == Surface(r, o) m == Mid(r, o) IN
       /\ Abs(Between(m, s)) < 30500 /\ Abs(Between(r.conv, s)) < 30500
       /\ Abs(Between(r.conv, m)) < 30500
JudgeAvoid(r) ==
  IF \E k \in Idx(r.obs) : ~Clear(r, r.obs[k]) \/ Abs(Between(r.conv, r.v0)) > 30500 THEN {} ELSE
  LET ts == [k \in Idx(r.obs) |-> TurnOf(r, r.obs[k])]
      turn == SumUp([k \in Idx(r.obs) |-> Mul(r.obs[k].iw, Wrap(ts[k]))])
      u == Turn(Unit(r.v0), turn)
      ds == [k \in Idx(r.obs) |-> Dot(u, r.obs[k].n)]
      avg == << SumUp([k \in Idx(r.obs) |-> Mul(r.obs[k].iw, r.obs[k].n[1])]),
                SumUp([k \in Idx(r.obs) |-> Mul(r.obs[k].iw, r.obs[k].n[2])]) >>
      gs == [k \in Idx(r.obs) |-> r.obs[k].g]
      sticky == Mul(Norm(r.v0), LET cs == [k \in Idx(r.obs) |-> DivR(ds[k] * S, r.obs[k].g)]
                                 IN S + Min(0, cs[LeastIdx(cs)]))
      loose == Mul(Norm(r.v0), Slowing(u, avg, gs[LeastIdx(gs)], 8000, 3))
      w == Sub(r.v, r.rel)
      full == Add(Scale(loose, u), r.rel)
  IN IF \E k \in Idx(r.obs) : Abs(Abs(Wrap(ts[k])) - 31416) < 900 THEN {} ELSE
     IF r.sticky
     THEN Clause("speed", Near(Norm(w), sticky, 150))
          \cup Clause("direction", Norm(w) < 300 \/ Abs(Between(u, w)) <= 200)
     ELSE Clause("speed", Near(Norm(r.v), r.s0, 5) \/ loose < 30)
          \cup Clause("direction", Norm(full) < 800 \/ Abs(Between(full, r.v)) <= 500)
JudgeSequence(r) ==
  IF \E k \in Idx(r.obs) : ~Clear(r, r.obs[k]) THEN {} ELSE
  LET toConv == Between(r.base, r.conv)
      toInit == Between(r.base, r.init)
      ws == [k \in Idx(r.obs) |-> Mul(Weight(r, r.obs[k]), r.obs[k].iw)]
      aims == [k \in Idx(r.obs) |-> Mul(ws[k], toConv + Detour(r, r.obs[k], FALSE))]
      back == IF r.defaults THEN SumUp([k \in Idx(r.obs) |-> r.obs[k].iw]) - SumUp(ws) ELSE 0
      turn == SumUp(aims) + Mul(back, toConv) + Mul(S - SumUp(ws) - back, toInit)
  IN IF Abs(toConv) > 30500 \/ Abs(toInit) > 30500 THEN {} ELSE
     Clause("direction", Abs(Wrap(Ang(r.v) - Ang(r.base) - turn)) <= 250)
     \cup Clause("unit", Near(Norm(r.v), S, 5))
\* ---- sharing the dynamics around the obstacles
Shares(gs, cut) ==
  IF \E k \in Idx(gs) : gs[k] <= S
  THEN LET c == Cardinality({k \in Idx(gs) : gs[k] <= S})
       IN [k \in Idx(gs) |-> IF gs[k] <= S THEN DivR(S, c) ELSE 0]
  ELSE LET raw == [k \in Idx(gs) |-> IF gs[k] >= cut THEN 0 ELSE
                     DivR(S * S, gs[k] - S) - DivR(S * S, cut - S)]
           big == raw[CHOOSE k \in Idx(raw) : \A j \in Idx(raw) : raw[j] <= raw[k]]
           \* relative to the largest one, to stay in range
           sq == [k \in Idx(raw) |-> IF big <= 0 THEN 0 ELSE
                    Mul(DivR(raw[k] * S, big), DivR(raw[k] * S, big))]
       IN [k \in Idx(gs) |-> IF big <= 0 THEN 0 ELSE DivR(sq[k] * S, SumUp(sq))]
JudgeMean(r) ==
  LET w == Shares(r.gs, r.cut)
      turn == SumUp([k \in Idx(r.gs) |-> IF w[k] = 0 THEN 0 ELSE
                        Mul(w[k], Between(r.v0, r.locals[k]))])
  IN IF \E k \in Idx(r.gs) : w[k] > 0 /\ Abs(Between(r.v0, r.locals[k])) > 30500 THEN {}
     ELSE Clause("mean", Abs(Wrap(Ang(r.v) - Ang(r.v0) - turn)) <= 60)
RECURSIVE Walk(_, _)
Walk(ds, k) == IF k <= 1 THEN 0 ELSE Between(ds[k - 1], ds[k]) + Walk(ds, k - 1)
Steep(ds) == \E k \in 2..Len(ds) : Abs(Between(ds[k - 1], ds[k])) > 30500
JudgeMeanSeq(r) ==
  LET tot == SumUp(r.ws)
      w == IF tot >= S THEN [k \in Idx(r.ws) |-> DivR(r.ws[k] * S, tot)] ELSE r.ws
      turn == SumUp([k \in Idx(w) |-> Mul(w[k], Walk(r.turns[k], Len(r.turns[k])))])
              + Mul(Max(0, S - tot), Between(r.base, r.init))
  IN IF Steep(<<r.base, r.init>>) \/ \E k \in Idx(w) : Steep(r.turns[k]) THEN {}
     ELSE Clause("mean of sequences", Abs(Wrap(Ang(r.v) - Ang(r.base) - turn)) <= 60)
Judge(r) ==
  CASE r.kind = "avoid" -> JudgeAvoid(r)
    [] r.kind = "sequence" -> JudgeSequence(r)
    [] r.kind = "mean" -> JudgeMean(r)
    [] r.kind = "meanseq" -> JudgeMeanSeq(r)
    [] r.kind = "weights" -> Clause("shares", LET w == Shares(r.gs, r.cut) IN
                                 \A k \in Idx(w) : Near(w[k], r.ws[k], 30))
                             \cup Clause("close", r.free = (\A k \in Idx(r.gs) : r.gs[k] >= r.cut))
    [] r.kind = "same" -> Clause("same", NearVec(r.v, r.w, 5))
    [] r.kind = "keep" -> Clause("unchanged", r.v = r.w)
    [] r.kind = "wall" -> Clause("into the obstacle", Dot(r.v, r.n) >= -r.tol)
                          \cup Clause("faster", Norm(r.v) <= r.s0 + 10)
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
