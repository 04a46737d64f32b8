------------------------------ MODULE Regions ------------------------------
(* Regions around cluster centres: region k is the part of the ball of radius   *)
(* rad around c[k] on this side of the walls halfway to the centres which are   *)
(* closer than two radii.  Positions in 1/S.                                    *)
EXTENDS DirectionSpace, FiniteSets
Span(c, k, j) == Norm(Sub(c[j], c[k]))
Relevant(c, k, rad) == {j \in 1..Len(c) : j # k /\ Span(c, k, j) < 2 * rad}
Toward(c, k, j) == Unit(Sub(c[j], c[k]))
\* signed distances to the wall with j and to the ball
Excess(c, k, j, p) == Dot(Toward(c, k, j), Sub(p, c[k])) - DivR(Span(c, k, j), 2)
Over(c, k, rad, p) == Norm(Sub(p, c[k])) - rad
Inside(c, k, rad, p, tol) ==
  /\ Over(c, k, rad, p) <= tol
  /\ \A j \in Relevant(c, k, rad) : Excess(c, k, j, p) <= tol
Outside(c, k, rad, p, tol) ==
  \/ Over(c, k, rad, p) >= tol
  \/ \E j \in Relevant(c, k, rad) : Excess(c, k, j, p) >= tol
\* least of a nonempty set, without enumerating more than its elements
Least(X) == CHOOSE x \in X : \A y \in X : x <= y
\* how far the surface is in direction u, at least rough walls are left aside
Reach(c, k, rad, u) ==
  Least({rad} \cup {DivR(DivR(Span(c, k, j), 2) * S, Dot(Toward(c, k, j), u)) :
                    j \in {x \in Relevant(c, k, rad) : Dot(Toward(c, k, x), u) > 500}})
Closest(c, p) == CHOOSE k \in 1..Len(c) : \A j \in 1..Len(c) :
                   Norm(Sub(p, c[k])) <= Norm(Sub(p, c[j]))
\* the position brought outside along its ray
Out(c, k, rad, p) ==
  LET d == Sub(p, c[k]) n == Norm(d) r == Reach(c, k, rad, Unit(d)) IN
  IF n >= r THEN p ELSE Add(c[k], Scale(DivR(DivR(r * S, n) * r, n), d))
\* excess beyond each of the walls, own index: the ball
Beyond(c, k, rad, p) == [j \in 1..Len(c) |->
   IF j = k THEN Max(Over(c, k, rad, p), 0)
   ELSE IF j \in Relevant(c, k, rad) THEN Max(Excess(c, k, j, p), 0) ELSE 0]
Shares(b) == LET t == SumSeq(b) IN [j \in 1..Len(b) |-> DivR(b[j] * 1000, t) * 10]
\* level of the region: outside distance of each wall over distance to the centre,
\* the wall t (0: none) is open
Gamma(c, k, rad, p, t) ==
  LET q == Out(c, k, rad, p)  far == Norm(Sub(q, c[k]))  n == Norm(Sub(p, c[k]))
      b == Beyond(c, k, rad, q)  w == Shares(b)
      plain == SumSeq([j \in 1..Len(c) |-> Mul(w[j], far - b[j])])
      closed == [j \in 1..Len(c) |-> IF j = t THEN 0 ELSE Max(w[j] - w[t], 0)]
      left == SumSeq(closed)
      open == SumSeq([j \in 1..Len(c) |-> Mul(closed[j], far - b[j])])
              + DivR((S - left) * (far - b[t]), Max(left, 1))
      g == IF t = 0 THEN plain ELSE IF w[t] = 0 THEN plain ELSE open
  IN IF g > 200000 THEN 200000 ELSE DivR(g * S, n)
OnlyOpen(c, k, rad, p, t) ==
  t # 0 /\ LET b == Beyond(c, k, rad, Out(c, k, rad, p)) IN
           b[t] > 0 /\ \A j \in 1..Len(c) : j # t => b[j] <= b[t]
\* inward normal: the inward radial direction turned by each wall with its
\* share, all together with the share of the walls
NormalOf(c, k, rad, p) ==
  LET b == Beyond(c, k, rad, Out(c, k, rad, p)) w == Shares(b)
      u == Unit(Sub(p, c[k]))
      RECURSIVE Sum(_)
      Sum(j) == IF j = 0 THEN Zero(Len(p))
                ELSE Add(Sum(j - 1), IF j = k THEN Zero(Len(p))
                                     ELSE Scale(w[j], LogOf(Toward(c, k, j), u)))
  IN Neg(ExpOf(Scale(S - w[k], Sum(Len(c))), u))
\* position along the passage from the neighbour a into k: 0 at the wall, S at the centre
Depth(c, k, a, p) == DivR(Max(-Excess(c, k, a, p), 0) * S, DivR(Span(c, k, a), 2))
\* share of the neighbour a for a position in k whose level is g
PassShare(c, k, a, p, g, part, cut) ==
  LET along == Max(S - DivR(Depth(c, k, a, p) * S, part), 0)
      more == Max(g - cut, 0)
  IN IF more > 1000000000 THEN along ELSE Mul(along, S - DivR(S * S, S + more))
=============================================================================
