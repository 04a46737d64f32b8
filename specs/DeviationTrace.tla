--------------------------- MODULE DeviationTrace ---------------------------
(* Dynamics which deviate from the way to an attractor, or from a constant flow: *)
(* turned locally around an obstacle, or as learned from samples, but never by    *)
(* as much as would lead backwards.                                               *)
(* kinds of records                                                               *)
(*  local: home attractor - position, base attractor - obstacle, ref direction,   *)
(*         g gamma, lo, hi: range of gamma, most speed, v                         *)
(*  flow:  axes (first the direction of the flow), speed, dev predicted, free:    *)
(*         without limits, v                                                      *)
(*  angles: axes, dir, got: the angles which are learned for a direction          *)
(*  perp:  p position seen from the attractor, sides: axes and dev per dimension, *)
(*         prox, most, v                                                          *)
(*  learned: xs all samples, dd dimension, side, got: samples which are learned   *)
(*  limited: home, prox, most, v   same: v, w   rest: v   word: word, want        *)
EXTENDS DirectionSpace, TraceLib
VARIABLE i
Idx(s) == 1..Len(s)
Nearby(r) == IF r.g <= r.lo THEN S ELSE IF r.g > r.hi THEN 0 ELSE DivR((r.hi - r.g) * S, r.hi - r.lo)
\* close to the attractor there is less of it
Fade(r, w) == IF w = S THEN S ELSE DivR(S * S, S + DivR(Mul(S - w, 3 * S) * S, Norm(r.home)))
Ahead(r) == Dot(Unit(r.home), Unit(r.base))
Weight(r) == LET w == Nearby(r) IN
   IF w = 0 THEN 0
   ELSE Mul(PowR(w, Min(DivR(2 * S * S, Max(S + Ahead(r), 100)), 400000)), Fade(r, w))
Turned(r, w) ==
  IF Aligned(r.base, r.ref) THEN Unit(r.home)
  ELSE LET b1 == PerpOf(r.base, r.ref)
           side == IF Aligned(r.base, r.home) THEN b1 ELSE RotateFromTo(b1, r.base, r.home, S)
       IN RotPlane(Unit(r.home), Unit(r.home), side, Mul(w, AngleBetween(r.base, r.ref)))
JudgeLocal(r) ==
  LET speed == Min(Norm(r.home), r.most) w == Weight(r) IN
     Clause("speed", Near(Norm(r.v), speed, 5))
     \cup Clause("turn", NearVec(r.v, Scale(speed, Turned(r, w)), 60))
     \cup Clause("straight", r.g <= r.hi \/ NearVec(r.v, Scale(speed, Unit(r.home)), 8))
\* ---- directions from the angles to the first of the axes, and back
RECURSIVE Along(_, _, _)
Along(dev, axes, k) == IF k = Len(dev) THEN Scale(DivR(dev[k], 2), axes[k + 1])
                       ELSE Add(Scale(DivR(dev[k], 2), axes[k + 1]), Along(dev, axes, k + 1))
Limit(dev, most) == IF Norm(dev) > most THEN Scale(most, Unit(dev)) ELSE dev
At(dev, axes) == ExpOf(Along(dev, axes, 1), axes[1])
JudgeFlow(r) ==
  Clause("direction", NearVec(r.v, Scale(r.speed, At(IF r.free THEN r.dev ELSE Limit(r.dev, 15551), r.axes)), 25))
  \cup Clause("forward", r.free \/ Dot(r.v, r.axes[1]) > 0)
JudgeAngles(r) == LET a == Along(r.got, r.axes, 1) IN
  Clause("angles", NearVec(a, LogOf(r.dir, r.axes[1]), 12))
\* ---- one prediction per dimension, shared by how far out the position is
Shares(p) == LET t == SumSeq([k \in Idx(p) |-> Abs(p[k])]) IN [k \in Idx(p) |-> DivR(Abs(p[k]) * S, t)]
RECURSIVE Blend(_, _, _, _)
Blend(dirs, ws, b, k) == LET here == Scale(ws[k], LogOf(dirs[k], b)) IN
   IF k = Len(dirs) THEN here ELSE Add(here, Blend(dirs, ws, b, k + 1))
JudgePerp(r) ==
  LET b == Unit(Neg(r.p))
      dirs == [k \in Idx(r.sides) |-> At(Limit(r.sides[k].dev, 15394), r.sides[k].axes)]
      speed == Mul(Min(S, DivR(Norm(r.p) * S, r.prox)), r.most)
      clear == \A k \in Idx(dirs) : Dot(dirs[k], b) > -9000
  IN Clause("axes", \A k \in Idx(r.p) : \A j \in Idx(r.p) :
              Near(r.sides[k].axes[1][j], IF j = k THEN (IF r.p[k] < 0 THEN S ELSE -S) ELSE 0, 1))
     \cup Clause("speed", Near(Norm(r.v), speed, 6))
     \cup Clause("direction", ~clear \/ Norm(r.v) < 500 \/
                 NearVec(Unit(r.v), ExpOf(Blend(dirs, Shares(r.p), b, 1), b), 70))
Chosen(r) == SelectSeq(r.xs, LAMBDA x : r.side * x[r.dd] >= 0)
Judge(r) ==
  CASE r.kind = "local" -> JudgeLocal(r)
    [] r.kind = "flow" -> JudgeFlow(r)
    [] r.kind = "angles" -> JudgeAngles(r)
    [] r.kind = "perp" -> JudgePerp(r)
    [] r.kind = "learned" -> Clause("samples", r.got = Chosen(r))
    [] r.kind = "limited" -> Clause("limited", NearVec(r.v, Scale(Mul(Min(S, DivR(Norm(r.home) * S, r.prox)), r.most), Unit(r.home)), 8))
    [] r.kind = "same" -> Clause("same", NearVec(r.v, r.w, 3))
    [] r.kind = "rest" -> Clause("rest", r.v = Zero(Len(r.v)))
    [] r.kind = "word" -> Clause("word", r.word = r.want)
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
