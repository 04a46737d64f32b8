--------------------------- MODULE ConvergenceTrace ---------------------------
(* The direction of convergence among obstacle trees, in the plane.               *)
(* record: base direction to the attractor, init direction of the dynamics,        *)
(*   trees: sequence of [g distance value of the attractor, rw weight of the root, *)
(*     vel direction of the dynamics at the root, b direction root -> attractor,   *)
(*     comps: sequence of [w weight, way: directions to the attractor from the      *)
(*     component's, its parent's, ..., the root's reference point]],               *)
(*   v direction of convergence, turns: number of rotations                        *)
(* Every obstacle asks for the dynamics at its root, reached by turning the        *)
(* direction to the attractor along the chain of its parents.                      *)
EXTENDS DirectionSpace, Weights, TraceLib
VARIABLE i
Ang(u) == Atan2(u[2], u[1])
Between(u, w) == Wrap(Ang(w) - Ang(u))
RECURSIVE Along(_, _)
Along(from, way) == IF way = <<>> THEN 0 ELSE Between(from, Head(way)) + Along(Head(way), Tail(way))
Own(r) == Between(r.base, r.init)
Root(r, t) == IF t.rw <= 0 THEN Own(r)
  ELSE Mul(S - t.rw, Own(r)) + Mul(t.rw, Between(r.base, t.b) + Between(t.b, t.vel))
Comp(r, t, c) == Along(r.base, c.way) + Between(t.b, t.vel)
Flat(ss) == LET RECURSIVE F(_) F(k) == IF k = 0 THEN <<>> ELSE F(k - 1) \o ss[k] IN F(Len(ss))
Asked(r, t) == LET tw == TreeShare(t.g, 2 * S) IN
  IF tw <= 0 THEN <<>> ELSE
    (IF t.rw > 0 THEN <<[w |-> Mul(t.rw, tw), a |-> Root(r, t)]>> ELSE <<>>)
    \o Flat([k \in Idx(t.comps) |-> IF t.comps[k].w > 100
                 THEN <<[w |-> Mul(t.comps[k].w, tw), a |-> Comp(r, t, t.comps[k])]>> ELSE <<>>])
Judge(r) ==
  LET asked == Flat([k \in Idx(r.trees) |-> Asked(r, r.trees[k])])
      raw == [k \in Idx(asked) |-> asked[k].w]
      w == Limited(Append(raw, 0))
      turn == SumSeq([k \in Idx(asked) |-> Mul(w[k], asked[k].a)])
              + Mul(S - LimitedTotal(raw), Own(r))
  IN Clause("direction of convergence", ~Decided(raw, 10) \/ Abs(Wrap(Ang(r.base) + turn - Ang(r.v))) <= 60 + 20 * Len(asked))
     \cup Clause("dynamics where nobody asks", asked # <<>> \/ NearVec(r.v, r.init, 5))
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
