------------------------------ MODULE CycleTrace ------------------------------
(* Dynamics which turn around a centre, and dynamics around an attractor.        *)
(* kinds of records (all vectors in the frame of the dynamics)                   *)
(*  circle: p position, rad radius, vmax, v velocity (plane or space)             *)
(*  turning: p, rad, fin, fout approach in- and outside, side +-1, speed, v        *)
(*  spiral: e axes across, p position across them, rad, dir direction, speed, v   *)
(*  wavy:   l linear velocity, dist, stretch, most: largest deviation, v           *)
(*  base:   from, at centres, x position, rad, dec, vel, dt                        *)
(*  orbit:  rs distances to the circle over time, turns: signed angle per step     *)
(*  same: v, w    rest: v    along: v, w parallel                                  *)
EXTENDS FixMath, TraceLib
VARIABLE i
Ang(u) == Atan2(u[2], u[1])
Left(u) == <<-u[2], u[1]>>
Square(u) == Mul(u[1], u[1]) + Mul(u[2], u[2])
\* ---- around a circle: along it, and towards it with the root of the difference of squares
Phi(p, rad) == LET d == Square(p) - Mul(rad, rad) IN Sgn(d) * ISqrt(Abs(d) * S)
Heading(p, rad) ==
  LET c == <<p[1], p[2]>> n == Norm(c) e == IF n = 0 THEN <<0, 0>> ELSE Unit(c)
      k == DivR(Phi(c, rad) * S, rad)
      flat == Sub(Left(e), Scale(k, e))
  IN IF Len(p) = 2 THEN flat ELSE flat \o [j \in 1..(Len(p) - 2) |-> -DivR(p[j + 2] * S, rad)]
Calm(p, rad) == Min(S, DivR(3 * Norm(p) * S, rad))
JudgeCircle(r) ==
  LET h == Heading(r.p, r.rad) e == Unit(<<r.p[1], r.p[2]>>)
      fl == <<r.v[1], r.v[2]>> out == Norm(<<r.p[1], r.p[2]>>) - r.rad
      big == Norm(<<r.p[1], r.p[2]>>) < 400
  IN Clause("speed", Near(Norm(r.v), Mul(r.vmax, Calm(r.p, r.rad)), 40))
     \cup Clause("heading", big \/ Norm(r.v) < 600
                 \/ NearVec(Unit(r.v), Unit(h), IF Abs(out) < 200 THEN 4500 ELSE 150))
     \cup Clause("turns left", big \/ Dot(fl, Left(e)) > 0)
     \cup Clause("towards the circle", Abs(out) < 100 \/ big \/
                 (IF out > 0 THEN Dot(fl, e) < 0 ELSE Dot(fl, e) > 0))
     \cup Clause("towards the plane", \A j \in 3..Len(r.p) : Abs(r.p[j]) < 50 \/ Norm(r.v) < 300
                 \/ r.p[j] * Sgn(r.v[j]) < 0)
\* ---- a circle outside of which the turn grows to half a round
Sigmoid(x) == LET e == Exp(-Abs(x)) IN
   IF x >= 0 THEN DivR(S * S, S + e) ELSE DivR(S * e, S + e)
JudgeTurning(r) ==
  LET n == Norm(r.p)
      x == IF n < r.rad THEN Mul(S - DivR(r.rad * S, n), r.fin)
           ELSE Mul(DivR((n - r.rad) * S, r.rad), r.fout)
      a == r.side * Mul(2 * Sigmoid(x), 15708)
  IN Clause("speed", Near(Norm(r.v), r.speed, 5))
     \cup Clause("turn", Abs(Wrap(Ang(r.v) - Ang(r.p) - a)) <= 60)
JudgeSpiral(r) ==
  LET h == Unit(Heading(r.p, r.rad))
      c == Scale(Min(S, DivR(3 * Norm(r.p) * S, r.rad)), h)
      all == Add(r.dir, Add(Scale(c[1], r.e[1]), Scale(c[2], r.e[2])))
  IN Clause("speed", Near(Norm(r.v), r.speed, 8))
     \cup Clause("heading", NearVec(r.v, Scale(r.speed, Unit(all)), 150))
JudgeWavy(r) ==
  LET a == Mul(r.most, Sin(Mul(r.dist, r.stretch))) IN
     Clause("speed", Near(Norm(r.v), Norm(r.l), 5))
     \cup Clause("deviation", Norm(r.l) < 300 \/ Abs(Wrap(Ang(r.v) - Ang(r.l) - a)) <= 60)
\* ---- a base which follows its own dynamics while the robot is around
JudgeBase(r) ==
  LET d == Norm(Sub(r.x, r.from)) most == Mul(r.rad, r.dec)
      w == IF d <= r.rad THEN S ELSE IF d < most THEN DivR((most - d) * S, most - r.rad) ELSE 0
  IN Clause("moves", NearVec(r.at, Add(r.from, Scale(Mul(w, r.dt), r.vel)), 12))
RECURSIVE Falls(_, _, _)
Falls(s, k, slack) == k >= Len(s) \/ (Abs(s[k + 1]) <= Abs(s[k]) + slack /\ Falls(s, k + 1, slack))
Judge(r) ==
  CASE r.kind = "circle" -> JudgeCircle(r)
    [] r.kind = "turning" -> JudgeTurning(r)
    [] r.kind = "spiral" -> JudgeSpiral(r)
    [] r.kind = "wavy" -> JudgeWavy(r)
    [] r.kind = "base" -> JudgeBase(r)
    [] r.kind = "orbit" -> Clause("ever closer", Falls(r.rs, 1, r.slack))
                           \cup Clause("on the circle", Abs(r.rs[Len(r.rs)]) <= r.slack + 150)
                           \cup Clause("one way", \A k \in 1..Len(r.turns) : r.turns[k] > 0)
    [] r.kind = "same" -> Clause("same", NearVec(r.v, r.w, 5))
    [] r.kind = "rest" -> Clause("rest", r.v = Zero(Len(r.v)))
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
