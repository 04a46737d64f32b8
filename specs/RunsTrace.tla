------------------------------ MODULE RunsTrace ------------------------------
(* Start positions of a comparison: the points of a grid outside of all circles,  *)
(* each of them once.                                                             *)
EXTENDS FixMath, TraceLib
VARIABLE i
Idx(s) == 1..Len(s)
Axis(lo, hi, n) == [k \in 1..n |-> IF n = 1 THEN lo ELSE lo + DivR((k - 1) * (hi - lo), n - 1)]
Grid(r) == {<<Axis(r.xlim[1], r.xlim[2], r.n)[a], Axis(r.ylim[1], r.ylim[2], r.n)[b]>> :
            a \in 1..r.n, b \in 1..r.n}
Distance(x, c) == Norm(Sub(x, c.x))
Close(x, y) == NearVec(x, y, 3)
Judge(r) ==
  LET g == Grid(r)
      free == {x \in g : \A k \in Idx(r.circles) : Distance(x, r.circles[k]) > r.circles[k].r + 20}
      taken == {x \in g : \E k \in Idx(r.circles) : Distance(x, r.circles[k]) < r.circles[k].r - 20} IN
       Clause("kept-free", \A x \in free : Cardinality({k \in Idx(r.out) : Close(r.out[k], x)}) = 1)
  \cup Clause("kept-taken", \A x \in taken : \A k \in Idx(r.out) : ~Close(r.out[k], x))
  \cup Clause("grid", \A k \in Idx(r.out) : \E x \in g : Close(r.out[k], x))
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
