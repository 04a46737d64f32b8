---------------------------- MODULE MixtureTrace ----------------------------
(* Graphs and walls of mixtures, as they were built from learned motions.       *)
EXTENDS FixMath, TraceLib, GraphRules
VARIABLE i
Image(m, v) == [j \in 1..Len(m) |-> Dot(m[j], v)]
Range(s) == {s[k] : k \in 1..Len(s)}
\* squared distance of a point from a Gaussian; r.u solves cov u = point - mean
Far(r, p, u) == Dot(Sub(p, r.mean), u)
Solves(r, p, u) == NearVec(Image(r.cov, u), Sub(p, r.mean), 12)
Turned(base, a) == Add(Scale(Cos(a), base[1]), Scale(Sin(a), base[2]))
Nearest(ends, target) ==
  LET d(k) == Norm(Sub(ends[k], target)) IN {k \in 1..Len(ends) : \A j \in 1..Len(ends) : d(k) <= d(j) + 3}
Judge(r) ==
  CASE r.f = "graph" ->
         Clause("root", r.root \in Nearest(r.ends, r.attractor))
    \cup Clause("tree", IsTree(r.parent, r.root))
    \cup Clause("parents", r.clear => r.parent = Built(r.w, r.root))
    \cup Clause("children", \A p \in 1..Len(r.parent) :
            /\ Len(r.children[p]) = Cardinality(Range(r.children[p]))
            /\ Range(r.children[p]) = {c \in 1..Len(r.parent) : r.parent[c] = p})
    \cup Clause("levels", IsTree(r.parent, r.root) =>
            \A c \in 1..Len(r.parent) : r.levels[c] = Depth(r.parent, c))
    \cup Clause("branches", r.branches = Cardinality(
            {p \in 1..Len(r.parent) : \A c \in 1..Len(r.parent) : r.parent[c] # p}))
    \cup Clause("roots", r.roots = <<r.root>>)
    [] r.f = "end" ->
         Clause("oracle", Solves(r, r.end, r.u))
    \cup Clause("on-ellipse", Near(Far(r, r.end, r.u), 2 * S, 60))
    \cup Clause("along-motion", NearVec(Unit(Sub(r.end, r.mean)), Turned(r.base, r.angle), 40))
    [] r.f = "wall" ->
         \* r.size2 is the square of the factor; points of the surface
         Clause("oracle", \A k \in 1..Len(r.points) : Solves(r, r.points[k], r.us[k]))
    \cup Clause("surface", \A k \in 1..Len(r.points) :
            Near(Far(r, r.points[k], r.us[k]), 2 * r.size2, 60 + DivR(r.size2, 100)))
    \cup Clause("boundary", r.boundary /\ NearVec(r.center, r.mean, 2))
    [] r.f = "target" ->
         \* the wall which holds the attractor leads to it, as does the root; the others
         \* lead to the point at which the way from the end to the parent leaves the wall
         IF r.inside = 1 \/ r.is_root THEN Clause("attractor", NearVec(r.out, r.attractor, 3))
         ELSE IF r.inside = 0 THEN
              Clause("oracle", Solves(r, r.out, r.u))
         \cup Clause("on-wall", Near(Far(r, r.out, r.u), 2 * r.size2, 80 + DivR(r.size2, 80)))
         \cup Clause("to-parent",
                LET way == Unit(Sub(r.parent_mean, r.mean)) gone == Sub(r.out, r.end) IN
                /\ Dot(gone, way) > -3 - DivR(3 * Norm(gone), Norm(Sub(r.parent_mean, r.mean)))
                /\ NearVec(Scale(Dot(gone, way), way), gone,
                           20 + DivR(3 * Norm(gone), Norm(Sub(r.parent_mean, r.mean)))))
         ELSE {}
    [] r.f = "pull" ->
         Clause("direction", NearVec(Unit(r.out), Unit(Sub(r.target, r.x)), 60))
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
