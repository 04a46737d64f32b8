----------------------------- MODULE RegionGrid -----------------------------
(* Regions on a small grid: a region is exactly the part of its ball which is   *)
(* closest to its centre among the relevant ones, neighbours share their wall,  *)
(* and every direction leaves the region once.                                  *)
EXTENDS Regions, TLC
CONSTANTS Grid, Places, Radii
VARIABLES c, rad, p
vars == <<c, rad, p>>
Triples == {x \in [1..3 -> Grid] : Cardinality({x[1], x[2], x[3]}) = 3}
Init == c \in Triples /\ rad \in Radii /\ p = c[1]
Next == p = c[1] /\ p' \in Places /\ UNCHANGED <<c, rad>>
Spec == Init /\ [][Next]_vars
Nearest == \A k \in 1..3 :
  LET d(j) == Norm(Sub(p, c[j])) IN
  (Inside(c, k, rad, p, 3) /\ d(k) <= rad) => \A j \in 1..3 : d(k) <= d(j) + 8
Covered == (\A k \in 1..3 : ~Inside(c, k, rad, p, 3)) =>
           \A k \in 1..3 : Norm(Sub(p, c[k])) > rad - 3
Shared == \A k, j \in 1..3 : (j # k /\ j \in Relevant(c, k, rad)) =>
          /\ k \in Relevant(c, j, rad)
          /\ Near(Excess(c, k, j, p), -Excess(c, j, k, p), 4)
OneExit == \A k \in 1..3 : LET d == Sub(p, c[k]) n == Norm(d) IN
  n > 2000 => (LET r == Reach(c, k, rad, Unit(d)) IN
     /\ (n < r - 30 => Inside(c, k, rad, p, 3))
     /\ (n > r + 30 => Outside(c, k, rad, p, 1)))
Levels == \A k \in 1..3 : LET d == Sub(p, c[k]) n == Norm(d) IN
  (n > 4000 /\ 2 * n > rad) => (LET b == Beyond(c, k, rad, Out(c, k, rad, p)) g == Gamma(c, k, rad, p, 0) IN
     SumSeq(b) > 300 =>
     /\ (Inside(c, k, rad, p, -50) => g > S)
     /\ (Outside(c, k, rad, p, 50) => g < S)
     /\ \A t \in 1..3 : (t \in Relevant(c, k, rad) /\ ~OnlyOpen(c, k, rad, p, t)) =>
            Gamma(c, k, rad, p, t) >= g - 60)
Inward == \A k \in 1..3 : LET d == Sub(p, c[k]) n == Norm(d) IN
  (n > 4000 /\ 2 * n > rad) => (SumSeq(Beyond(c, k, rad, Out(c, k, rad, p))) > 300 =>
               Dot(NormalOf(c, k, rad, p), d) < 0)
=============================================================================
