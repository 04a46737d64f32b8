--------------------------- MODULE ProjectionTrace ---------------------------
(* The dynamics around an obstacle, seen from the attractor: the environment is   *)
(* unrolled such that the half line behind the attractor lies infinitely far away. *)
(* kinds of records                                                               *)
(*  shell: p, r radius there, w part of it: out position without the obstacle,     *)
(*         back: out with the obstacle again                                       *)
(*  fold:  o vector attractor -> obstacle, p vector attractor -> position,         *)
(*         f vector obstacle -> unrolled position, back vector attractor -> rolled  *)
(*  weight: g, pg distance values of position and unrolled position, w weight       *)
(*  order: ws weights at one distance, ever farther around the attractor            *)
(*  same:  a, b weights in two frames;  one: w                                      *)
(*  turn:  a, b directions from the attractor, w any vector and its image v, none   *)
(*  blend: a, b, v0, vo velocity at the obstacle, w, v result                       *)
(*  chain: base, init directions at the position, b, vo, w, v end of the sequence   *)
EXTENDS DirectionSpace, TraceLib
VARIABLE i
Ang(u) == Atan2(u[2], u[1])
Between(u, w) == Wrap(Ang(w) - Ang(u))
Out(p, r, w) == LET n == Norm(p) IN IF n <= r THEN Zero(Len(p)) ELSE Scale(DivR((n - Mul(r, w)) * S, n), p)
Along(v, e) == Dot(v, e)
Across(v, e) == Sub(v, Scale(Along(v, e), e))
\* unrolled: d^2 ln(rho / d) along, tan(theta / 2) across
HalfTan(u, e) == DivR(Norm(Across(u, e)) * S, S + Dot(u, e))
JudgeFold(r) ==
  LET d == Norm(r.o) e == Unit(r.o)
      ac == Across(r.p, e)
      l == Mul(Mul(d, d), Ln(DivR(Norm(r.p) * S, d)))
      t == HalfTan(Unit(r.p), e)
  IN Clause("along", Near(Along(r.f, e), l, 40))
     \cup Clause("across", Near(Norm(Across(r.f, e)), t, 20 + DivR(t, 100)))
     \cup Clause("side", Norm(ac) < 200 \/ t < 200 \/ NearVec(Unit(Across(r.f, e)), Unit(ac), 250))
     \cup Clause("inverse", NearVec(r.back, r.p, 4))
JudgeShell(r) ==
  Clause("without obstacle", NearVec(r.out, Out(r.p, r.r, r.w), 8))
  \cup Clause("with obstacle again", Norm(r.p) <= r.r \/ NearVec(r.back, r.p, 8))
Blend(r) == Ang(r.v0) + Mul(r.w, Between(r.a, r.b) + Wrap(Ang(r.vo) - Ang(r.v0) - Between(r.a, r.b)))
Chain(r) == Ang(r.base) + Mul(S - r.w, Between(r.base, r.init))
                        + Mul(r.w, Between(r.base, r.b) + Between(r.b, r.vo))
Judge(r) ==
  CASE r.kind = "shell" -> JudgeShell(r)
    [] r.kind = "fold" -> JudgeFold(r)
    [] r.kind = "weight" -> Clause("weight", Near(r.w, IF r.g <= S \/ r.pg <= S THEN S
                                ELSE ISqrt(DivR(S * S, S + Mul(r.g - S, r.pg - S)) * S), 30))
                            \cup Clause("weight range", r.w >= 0 /\ r.w <= S)
    [] r.kind = "order" -> Clause("weight falls around the attractor",
                              \A k \in 2..Len(r.ws) : r.ws[k] <= r.ws[k - 1] + 2)
                            \cup Clause("no weight behind the attractor", r.ws[Len(r.ws)] <= 300)
    [] r.kind = "same" -> Clause("same weight in any frame", Near(r.a, r.b, 2))
    [] r.kind = "one" -> Clause("full weight", r.w = S)
    [] r.kind = "turn" -> Clause("no turn", r.none = (Dot(r.a, r.b) <= -S \/ Norm(r.a) = 0))
                          \cup IF r.none THEN {} ELSE
                          Clause("turn", NearVec(r.v, RotateFromTo(r.w, r.a, r.b, S), 25))
    [] r.kind = "blend" -> Clause("speed", Near(Norm(r.v), Norm(r.v0), 6))
                          \cup Clause("direction",
                             \/ Abs(Wrap(Ang(r.vo) - Ang(r.v0) - Between(r.a, r.b))) > 30500
                             \/ Abs(Wrap(Ang(r.v) - Blend(r))) <= 30)
    [] r.kind = "chain" -> Clause("end",
                             \/ Abs(Between(r.b, r.vo)) > 30500 \/ Abs(Between(r.base, r.init)) > 30500
                             \/ Abs(Wrap(Ang(r.v) - Chain(r))) <= 30)
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
