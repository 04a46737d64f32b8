--------------------------- MODULE DirectionSpace ---------------------------
(* Directions seen from a null direction b: the direction at angle th from b is *)
(* the vector of length th/2 orthogonal to b (half angles keep TLC in range).   *)
EXTENDS FixMath
Rest(v, b) == Sub(Unit(v), Scale(Dot(Unit(v), b), b))
LogOf(v, b) == LET r == Rest(v, b) IN
   IF Norm(r) <= 2 THEN (IF Dot(v, b) > 0 THEN Zero(Len(v)) ELSE Zero(Len(v)))
   ELSE Scale(DivR(AngleBetween(b, v), 2), Unit(r))
ExpOf(a, b) == LET h == Norm(a) IN
   IF h <= 1 THEN b ELSE Add(Scale(Cos(2 * h), b), Scale(Sin(2 * h), Unit(a)))
\* far intersection of the line from s through e with the circle of (half) radius r
Hits(s, e, r) == LET d == Unit(Sub(e, s)) p == Dot(s, d) IN
                 Mul(p, p) - Dot(s, s) + Mul(r, r) >= 0
FarOf(s, e, r) == LET d == Unit(Sub(e, s)) p == Dot(s, d)
                      q == Mul(p, p) - Dot(s, s) + Mul(r, r)
                  IN Add(s, Scale(ISqrt(Max(q, 0) * S) - p, d))
\* pseudo tangent: from the reference direction through the vector onto the cone of
\* angle rad around the inward direction; beyond the cone seen from the other side
Tangent(v, n, ref, rad) ==
  LET inside == Dot(Unit(v), Neg(n)) > Cos(rad)
      b == IF inside THEN Neg(n) ELSE n
      r == IF inside THEN ref ELSE Neg(ref)
      h == IF inside THEN DivR(rad, 2) ELSE DivR(Pi - rad, 2)
  IN ExpOf(FarOf(LogOf(r, b), LogOf(v, b), h), b)
\* weight of the rotation at distance gamma (convergence c, inward reference ref)
RotationWeight(c, n, ref, g, rad, p) ==
  IF g <= S THEN S
  ELSE LET away == Dot(c, n) > Cos(rad)
           b == IF away THEN n ELSE Neg(n)
           ar == LogOf(IF away THEN Neg(ref) ELSE ref, b)
           delta == 2 * Norm(Sub(ar, LogOf(c, b)))
           rr == Min(15708, rad) - 2 * Norm(ar)
           w == DivR(S * S, g)
       IN IF rr <= delta THEN w
          ELSE LET ratio == DivR(rr * S, delta) IN PowR(w, PowR(Min(ratio, 400000), p))
SmoothWeight(c, b, ref, g, rad, p) ==
  LET w == DivR(S * S, g)
      ac == LogOf(c, b)  ar == LogOf(ref, b)
      cw == DivR(2 * Norm(Sub(ac, ar)) * S, Min(rad - 2 * Norm(ar), 15708))
  IN IF w >= S THEN S ELSE IF 2 * Norm(ac) >= rad THEN w
     ELSE PowR(w, DivR(S * S, PowR(Min(cw, S), p)))
\* velocity (unit) v close to a surface with averaged normal n (length at most one)
Slowing(v, n, g, k, root) ==
  LET d == Dot(v, n) m == Norm(n) IN
  IF d > 0 \/ m = 0 THEN S
  ELSE IF g <= S THEN (IF d < -10 THEN 0 ELSE S)
  ELSE PowR(S + Mul(k, d), PowR(DivR(m * S, g - S), DivR(S, root)))
=============================================================================
