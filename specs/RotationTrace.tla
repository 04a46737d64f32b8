---------------------------- MODULE RotationTrace ----------------------------
(* Recorded evaluations of vector rotations in 2 to 5 dimensions, judged with  *)
(* the fixed point definition of the rotation between two directions.          *)
EXTENDS FixMath, TraceLib
VARIABLE i
T == 12      \* tolerance, 1e-4 units
\* the rotation from direction a to b by the fraction f
Expect(r, w, f) == RotateFromTo(w, r.a, r.b, f)
\* the plane of nearly parallel directions is known less precisely
Loose(a, b) == LET p == Norm(Sub(Unit(b), Scale(Dot(Unit(a), Unit(b)), Unit(a)))) IN
               IF p < 3 THEN T ELSE T + (3 * S) \div p
\* fields: a, b the defining directions; w the rotated vector; f the fraction;
\* out = rotate(w, f); back = inverse_rotate(rotate(w)); first, second; inv = inv().rotate(w)
Judge(r) ==
  IF r.kind = "xd" THEN
       Clause("finite", Finite(r.out) /\ Finite(r.back) /\ Finite(r.second))
    \cup Clause("keeps-length", Near(Norm(r.out), Norm(r.w), T))
    \cup Clause("rotates-by-fraction", NearVec(r.out, Expect(r, r.w, r.f), 2 * Loose(r.a, r.b)))
    \cup Clause("inverse-undoes", NearVec(r.back, r.w, T))
    \cup Clause("inv-is-inverse", NearVec(r.invback, r.w, T))
    \cup Clause("first-vector", NearVec(r.first, Unit(r.a), T))
    \cup Clause("second-vector", NearVec(r.second, Unit(r.b), T))
    \cup Clause("additive", NearVec(r.twice, Expect(r, r.w, 2 * r.f), 3 * Loose(r.a, r.b)))
    \cup Clause("zero-stays", r.zero = Zero(Len(r.a)))
  ELSE IF r.kind = "turn" THEN
       \* turning rotation (c -> d) by rotation (a -> b) with factor f
       Clause("turned-first", NearVec(r.first, Expect(r, Unit(r.c), r.f), 2 * Loose(r.a, r.b)))
    \cup Clause("turned-second", NearVec(r.second, Expect(r, Unit(r.d), r.f), 2 * Loose(r.a, r.b)))
    \cup Clause("angle-kept", Near(r.angle, AngleBetween(r.c, r.d), T))
    \cup Clause("original-untouched", NearVec(r.ofirst, Unit(r.c), T))
  ELSE IF r.kind = "add" THEN
    LET n1 == Norm(r.a) n2 == Norm(r.b)
        n  == Mul(S - r.f, n1) + Mul(r.f, n2) IN
    (IF n1 = 0 THEN Clause("zero-first", NearVec(r.out, Scale(r.f, r.b), T))
     ELSE IF n2 = 0 THEN Clause("zero-second", NearVec(r.out, Scale(S - r.f, r.a), T))
     ELSE Clause("length-interpolates", Near(Norm(r.out), n, 2 * T))
       \cup Clause("direction-interpolates",
              NearVec(r.out, Scale(n, RotateFromTo(Unit(r.a), r.a, r.b, r.f)), 3 * Loose(r.a, r.b))))
  ELSE IF r.kind = "array" THEN
       UNION { Clause("array-column", NearVec(r.outs[k],
                 Unit(RotPlane(r.ins[k], r.b0, r.b1, r.angle)), 2 * T)) : k \in 1..Len(r.ins)}
  ELSE IF r.kind = "tiny" THEN
       \* deviations in 1e-9: reached exactly, however small the turn
       Clause("reaches", NearVec(r.end, Zero(Len(r.end)), 20))
    \cup Clause("half-way", NearVec(r.half, Zero(Len(r.half)), 20))
    \cup Clause("orthonormal-plane", NearVec(r.gram, Zero(4), 20))
  ELSE IF r.kind = "opposite" THEN
       \* between opposite directions: some half turn, through a perpendicular
       Clause("reaches", NearVec(r.end, Neg(r.a), 2) /\ NearVec(r.second, Neg(r.a), 2))
    \cup Clause("perpendicular", Near(Dot(r.half, r.a), 0, 4) /\ Near(Norm(r.half), S, 4))
    \cup Clause("keeps-length", Near(Norm(r.out), Norm(r.w), 8))
    \cup Clause("turn-and-turn", NearVec(r.twice, r.w, 8))
    \cup Clause("inverse-undoes", NearVec(r.back, r.w, 8))
  ELSE {"unknown-record"}
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
