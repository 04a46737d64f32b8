------------------------------ MODULE TreeMean ------------------------------
(* Weighted means of direction trees.  The definition:                          *)
(* a node passes on the weight of its branch; every edge turns by that share   *)
(* of its angle and drags its branch with it; the turns of one level, brought  *)
(* to a common first axis, add up as tangent vectors; the branches continue    *)
(* from the added up turn.                                                     *)
EXTENDS FixMath, TLC
\* r.dirs: unit directions, r.par: parent index (0 for the root, which is node 1)
RECURSIVE Desc(_, _, _), TotalW(_, _, _), LevelOf(_, _)
Desc(r, n, k) == IF k > Len(r.par) THEN {}
                 ELSE (IF r.par[k] = n THEN {k} \cup Desc(r, k, k + 1) ELSE {}) \cup Desc(r, n, k + 1)
TotalW(r, n, k) == IF k > Len(r.par) THEN r.w[n]
                   ELSE (IF r.par[k] = n THEN TotalW(r, k, k + 1) ELSE 0) + TotalW(r, n, k + 1)
LevelOf(r, n) == IF r.par[n] = 0 THEN 0 ELSE 1 + LevelOf(r, r.par[n])
Plane0(r, n) == LET u == r.dirs[r.par[n]] v == r.dirs[n] IN
   [b0 |-> Unit(u), b1 |-> IF Aligned(u, v) THEN Zero(Len(u)) ELSE PerpOf(u, v),
    th |-> IF Aligned(u, v) THEN 0 ELSE AngleBetween(u, v)]
TurnP(p, q, a) == [p EXCEPT !.b0 = RotPlane(@, q.b0, q.b1, a), !.b1 = RotPlane(@, q.b0, q.b1, a)]
\* deepest nodes first: each node drags its branch back by the share it does not turn
RECURSIVE Drag(_, _, _, _)
Drag(r, W, P, n) ==
  IF n = 1 THEN P
  ELSE LET a == Mul(W[n] - S, Plane0(r, n).th)
           below == TLCEval(Desc(r, n, n + 1))
           p == TLCEval(Plane0(r, n))
           Q == TLCEval([k \in DOMAIN P |-> IF k \in below THEN TLCEval(TurnP(P[k], p, a)) ELSE P[k]])
       IN Drag(r, W, Q, n - 1)
RECURSIVE SumVec(_, _, _)
SumVec(P, W, ns) == IF ns = {} THEN Zero(Len(P[2].b0))
   ELSE LET n == CHOOSE x \in ns : TRUE
        IN Add(Scale(Mul(W[n], P[n].th), P[n].b1), SumVec(P, W, ns \ {n}))
\* the direction after each level
RECURSIVE Levels(_, _, _, _, _)
Levels(r, W, P, l, m) ==
  LET ns == TLCEval({n \in 2..Len(r.par) : LevelOf(r, n) = l /\ W[n] > 0}) IN
  IF ns = {} THEN <<>>
  ELSE LET t == TLCEval(SumVec(P, W, ns))
           a == Norm(t)
           b == TLCEval(IF a <= 3 THEN Zero(Len(m)) ELSE [k \in 1..Len(t) |-> DivR(t[k] * 1000, a) * 10])
           u == TLCEval(IF a <= 3 THEN Zero(Len(m)) ELSE Unit(b))
           Q == TLCEval([k \in DOMAIN P |->
                   LET an == {n \in ns : k \in Desc(r, n, n + 1)} IN
                   IF an = {} THEN P[k]
                   ELSE LET n == CHOOSE x \in an : TRUE
                            p1 == TLCEval(TurnP(P[k], P[n], -Mul(W[n], P[n].th)))
                        IN IF a <= 3 THEN p1 ELSE TurnP(p1, [b0 |-> m, b1 |-> u], a)])
           next == TLCEval(IF a <= 3 THEN m ELSE RotPlane(m, m, u, a))
       IN <<next>> \o Levels(r, W, Q, l + 1, next)
Stages(r) ==
  LET W == TLCEval([n \in 1..Len(r.par) |-> TotalW(r, n, n + 1)])
      P == TLCEval([n \in 2..Len(r.par) |-> TLCEval(Plane0(r, n))])
  IN IF Len(r.par) = 1 THEN <<>>
     ELSE Levels(r, W, Drag(r, W, P, Len(r.par)), 1, Unit(r.dirs[1]))
Expected(r) == LET s == Stages(r) IN IF s = <<>> THEN Unit(r.dirs[1]) ELSE s[Len(s)]
\* a tree with further branches from its root: b.way directions, b.w weight of the last
RECURSIVE Grow(_, _, _)
Grow(t, bs, k) ==
  IF k > Len(bs) THEN t ELSE
  LET n == Len(t.par) m == Len(bs[k].way) IN
  Grow([dirs |-> t.dirs \o bs[k].way,
        par |-> t.par \o [j \in 1..m |-> IF j = 1 THEN 1 ELSE n + j - 1],
        w |-> t.w \o [j \in 1..m |-> IF j = m THEN bs[k].w ELSE 0]], bs, k + 1)
=============================================================================
