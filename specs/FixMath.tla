------------------------------- MODULE FixMath -------------------------------
(* Fixed point arithmetic for the numeric specifications: a real x is the      *)
(* integer nearest to S*x, an angle is in units of 1/S radian.  All operators  *)
(* stay within TLC's 32 bit integers as long as |x| <= 4.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
S == 10000
Pi == 31416
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* rounded division (b # 0)
DivR(a, b) == IF b > 0 THEN (a \div b) + (2 * (a % b)) \div b
              ELSE ((-a) \div (-b)) + (2 * ((-a) % (-b))) \div (-b)
Mul(a, b) == DivR(a * b, S)
Near(a, b, tol) == Abs(a - b) <= tol
\* integer square root by Newton's method
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ISqrtFrom(n, y)
ISqrt(n) == IF n <= 0 THEN 0 ELSE ISqrtFrom(n, Min(n, 46340))
\* ---- vectors: sequences of fixed point numbers
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Dim(v) == Len(v)
RawDot(u, v) == SumSeq(TLCEval([i \in 1..Len(u) |-> u[i] * v[i]]))
Dot(u, v) == DivR(RawDot(u, v), S)
Norm(v) == ISqrt(RawDot(v, v))
Add(u, v) == TLCEval([i \in 1..Len(u) |-> u[i] + v[i]])
Sub(u, v) == TLCEval([i \in 1..Len(u) |-> u[i] - v[i]])
Neg(v) == TLCEval([i \in 1..Len(v) |-> -v[i]])
Scale(a, v) == TLCEval([i \in 1..Len(v) |-> Mul(a, v[i])])
Zero(n) == [i \in 1..n |-> 0]
NearVec(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Near(u[i], v[i], tol)
Unit(v) == LET n == Norm(v) IN TLCEval([i \in 1..Len(v) |-> DivR(v[i] * S, n)])
Finite(v) == \A i \in 1..Len(v) : v[i] < 2000000000
\* ---- angles
RECURSIVE Wrap(_)
Wrap(a) == IF a > Pi THEN Wrap(a - 2 * Pi) ELSE IF a <= -Pi THEN Wrap(a + 2 * Pi) ELSE a
SinSmall(r) == LET r2 == Mul(r, r) IN
  r - Mul(Mul(r, r2) - DivR(Mul(Mul(r, r2), r2), 20) + DivR(Mul(Mul(Mul(r, r2), r2), r2), 840), 1667)
CosSmall(r) == LET r2 == Mul(r, r) IN
  S - DivR(r2, 2) + DivR(Mul(r2, r2), 24) - DivR(Mul(Mul(r2, r2), r2), 720)
SinPos(a) == IF a > Pi \div 2 THEN (LET b == Pi - a IN IF b > 7854 THEN CosSmall(15708 - b) ELSE SinSmall(b))
             ELSE IF a > 7854 THEN CosSmall(15708 - a) ELSE SinSmall(a)
Sin(x) == LET a == Wrap(x) IN IF a >= 0 THEN SinPos(a) ELSE -SinPos(-a)
Cos(x) == Sin(x + 15708)
\* angle of the vector (x, y); Newton iterations on the unit circle
RECURSIVE AtanIter(_, _, _, _)
AtanIter(x, y, a, k) == IF k = 0 THEN a
                        ELSE AtanIter(x, y, a + (Mul(y, Cos(a)) - Mul(x, Sin(a))), k - 1)
Atan2(y, x) ==
  LET u == Unit(<<x, y>>)
      g == IF u[1] >= 7071 THEN u[2]
           ELSE IF u[1] <= -7071 THEN (IF u[2] >= 0 THEN Pi - u[2] ELSE -Pi - u[2])
           ELSE IF u[2] > 0 THEN 15708 - u[1] ELSE -15708 + u[1]
  IN Wrap(AtanIter(u[1], u[2], g, 4))
Acos(c) == LET cc == Max(-S, Min(S, c)) IN
           IF cc = S THEN 0 ELSE IF cc = -S THEN Pi
           ELSE Atan2(ISqrt(S * S - cc * cc), cc)
\* ---- rotations in the plane spanned by the orthonormal pair (b0, b1)
RotPlane(v, b0, b1, a) ==
  LET p == Dot(v, b0)  r == Dot(v, b1)
      c == Cos(a)      s == Sin(a)
      p2 == Mul(p, c) - Mul(r, s)  r2 == Mul(p, s) + Mul(r, c)
  IN Add(v, Add(Scale(p2 - p, b0), Scale(r2 - r, b1)))
\* angle between two vectors and the second axis of the plane they span
AngleBetween(u, v) == LET a == Unit(u) b == Unit(v) IN
    Atan2(Norm(Sub(b, Scale(Dot(a, b), a))), Dot(a, b))
PerpOf(u, v) == LET a == Unit(u) b == Unit(v) IN Unit(Sub(b, Scale(Dot(a, b), a)))
Aligned(u, v) == NearVec(Unit(u), Unit(v), 3)
\* rotate w by factor f (fixed point) of the rotation taking direction u to direction v
RotateFromTo(w, u, v, f) ==
   IF Aligned(u, v) THEN w ELSE RotPlane(w, Unit(u), PerpOf(u, v), Mul(f, AngleBetween(u, v)))
\* ---- logarithm, exponential, powers
RECURSIVE Ln(_)
Ln(x) == IF x > 14142 THEN Ln(DivR(x, 2)) + 6931
         ELSE IF x < 7071 THEN Ln(2 * x) - 6931
         ELSE LET z == DivR((x - S) * S, x + S) z2 == Mul(z, z) z3 == Mul(z, z2) z5 == Mul(z3, z2)
              IN 2 * (z + DivR(z3, 3) + DivR(z5, 5) + DivR(Mul(z5, z2), 7))
RECURSIVE Exp(_)
Exp(x) == IF x < -90000 THEN 0
          ELSE IF Abs(x) > 3466 THEN LET e == Exp(DivR(x, 2)) IN Mul(e, e)
          ELSE LET x2 == Mul(x, x) IN
               S + x + DivR(x2, 2) + DivR(Mul(x2, x), 6) + DivR(Mul(x2, x2), 24)
\* b^e for 0 < b <= 4 and e >= 0
PowR(b, e) == IF b <= 0 THEN 0 ELSE IF b = S THEN S ELSE
              LET l == Ln(b) IN
              IF (Abs(l) \div 100) * (e \div 100) > 90000 THEN 0 ELSE Exp(Mul(l, e))
=============================================================================
