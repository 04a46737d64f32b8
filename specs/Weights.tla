------------------------------- MODULE Weights -------------------------------
(* How influence is shared among obstacles and components.  Fixed point.        *)
EXTENDS FixMath
Idx(s) == 1..Len(s)
Share(hit) == LET n == Cardinality({k \in DOMAIN hit : hit[k]}) IN
              [k \in DOMAIN hit |-> IF hit[k] THEN DivR(S, n) ELSE 0]
\* proportions of s
Proportion(s) == LET t == SumSeq(s)
                     c == IF t > 200000 THEN 100 ELSE 1
                 IN [k \in Idx(s) |-> DivR(DivR(s[k], c) * S, DivR(t, c))]
\* -- weights of at most one in total; whoever is at one takes it all
Odds(w) == DivR(w * 1000, S - w)
Limited(w) ==
  LET t == SumSeq(w) IN
  IF t < S THEN w
  ELSE IF \E k \in Idx(w) : w[k] >= S THEN Share([k \in Idx(w) |-> w[k] >= S])
  ELSE Proportion([k \in Idx(w) |-> Odds(w[k])])
LimitedTotal(w) == Min(S, SumSeq(w))
\* the rule changes where the weights sum up to one: not decided within rounding
Decided(w, tol) == Abs(SumSeq(w) - S) > tol \/ Cardinality({k \in Idx(w) : w[k] > 0}) <= 1
\* -- weights from distances: inverse of the distance beyond the minimum
Inv(d) == DivR(S * S, d)
Pow(x, p) == IF p = 1 THEN x ELSE IF p = 2 THEN DivR(DivR(x, 10) * DivR(x, 10), 100) ELSE ISqrt(x * S)
Closeness(d, min, p, limit) ==
  IF \E k \in Idx(d) : d[k] <= min THEN Share([k \in Idx(d) |-> d[k] <= min])
  ELSE LET raw == [k \in Idx(d) |-> Pow(Inv(d[k] - min), p)] IN
       IF limit /\ SumSeq(raw) > S THEN Proportion(raw) ELSE raw
\* -- occlusion: visible ones share by visibility, else the least occluded ones
Visible(w) ==
  IF \E k \in Idx(w) : w[k] > 0 THEN Proportion([k \in Idx(w) |-> Max(w[k], 0)])
  ELSE Share([k \in Idx(w) |-> \A j \in Idx(w) : w[j] <= w[k]])
\* -- weights growing with the distance from the surface
Outside(g) == LET r == [k \in Idx(g) |-> Max(g[k] - S, 0)] IN
              IF SumSeq(r) = 0 THEN r ELSE Proportion(r)
\* -- influence of an obstacle tree whose closeness to the singularity is g
TreeShare(g, far) == IF g <= S THEN 0 ELSE IF g >= far THEN S ELSE DivR((g - S) * S, far - S)
\* ---- what a user relies on
AtMostOne(w) == (\A k \in Idx(w) : w[k] >= 0) /\ SumSeq(w) <= S + 5
IsPartition(w) == (\A k \in Idx(w) : w[k] >= 0) /\ Near(SumSeq(w), S, 5)
OrderKept(a, b) == \A j, k \in Idx(a) : a[j] <= a[k] => b[j] <= b[k] + 2
OrderTurned(a, b) == \A j, k \in Idx(a) : a[j] <= a[k] => b[k] <= b[j] + 2
=============================================================================
