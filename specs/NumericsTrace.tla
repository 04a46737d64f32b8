---------------------------- MODULE NumericsTrace ----------------------------
(* The integration step of order four, the limit of magnitudes and the normal   *)
(* distribution, defined in fixed point.                                        *)
EXTENDS FixMath, TraceLib
VARIABLE i
\* a polynomial vector field: constant, linear and pure quadratic parts
Field(f, x) == [k \in 1..Len(f.b) |->
     f.b[k] + Dot(f.a[k], x) + Dot(f.q[k], [j \in 1..Len(x) |-> Mul(x[j], x[j])])]
Half(v) == [j \in 1..Len(v) |-> DivR(v[j], 2)]
\* displacement of one Runge-Kutta step of the field F(.)
Displacement(f, x, tail, h) ==
  LET F(p) == Scale(h, Field(f, p \o tail))
      k1 == F(x)  k2 == F(Add(x, Half(k1)))  k3 == F(Add(x, Half(k2)))  k4 == F(Add(x, k3))
  IN [j \in 1..Len(x) |-> DivR(k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j], 6)]
\* densities
Det(m) == CASE Len(m) = 1 -> m[1][1]
            [] Len(m) = 2 -> Mul(m[1][1], m[2][2]) - Mul(m[1][2], m[2][1])
            [] Len(m) = 3 -> Mul(m[1][1], Mul(m[2][2], m[3][3]) - Mul(m[2][3], m[3][2]))
                           - Mul(m[1][2], Mul(m[2][1], m[3][3]) - Mul(m[2][3], m[3][1]))
                           + Mul(m[1][3], Mul(m[2][1], m[3][2]) - Mul(m[2][2], m[3][1]))
\* 1 / sqrt((2 pi)^d)
Share(d) == CASE d = 1 -> 3989 [] d = 2 -> 1592 [] d = 3 -> 635
Image(m, v) == [j \in 1..Len(m) |-> Dot(m[j], v)]
Judge(r) ==
  CASE r.f = "rk4" ->
         Clause("step", NearVec(r.out, Add(r.x, Displacement(r.field, r.x, <<>>, r.h)), 15))
    \cup Clause("argument-kept", r.kept)
    [] r.f = "rk4vel" ->
         LET d == Displacement(r.field, r.x, r.v, r.h) IN
         Clause("step", NearVec(r.out, Add(r.x, d), 15))
    \cup Clause("displacement", NearVec(r.disp, d, 15))
    \cup Clause("argument-kept", r.kept)
    [] r.f = "magnitude" ->
         Clause("limited", \A k \in 1..Len(r.x) :
                    Near(r.out[k], Min(Mul(r.gain, Norm(r.x[k])), r.max), 12))
    [] r.f = "gauss" ->
         \* density = Exp(-m/2) / sqrt((2 pi)^d det): r.u solves cov u = x - mean
         LET delta == Sub(r.x, r.mean)
             m == Dot(delta, r.u)
         IN Clause("oracle", NearVec(Image(r.cov, r.u), delta, 12))
       \cup Clause("peak", Near(Mul(r.peak, ISqrt(Det(r.cov) * S)), Share(Len(delta)), 12))
       \cup Clause("density", Near(r.p, Mul(r.peak, Exp(-DivR(m, 2))), 12))
       \cup Clause("gradient", NearVec(Image(r.cov, r.grad), Scale(-r.p, delta), 20))
       \cup Clause("dimension", r.dim = Len(delta))
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
