------------------------- MODULE SpatialConvergence -------------------------
(* The direction of convergence among obstacle trees, in any dimension.           *)
(* Every obstacle asks for the dynamics at its root.  Each way there is a branch  *)
(* of directions which starts at the direction to the attractor: for components   *)
(* along the directions from their reference point and those of their parents to  *)
(* the attractor; for the root in stages of the mean of the dynamics here and of  *)
(* those at the root, by the weight of the root.  The direction of convergence is *)
(* the weighted mean of these branches and of the dynamics here.                  *)
(* Records: see ConvergenceTrace.                                                 *)
EXTENDS Weights, TreeMean, TraceLib
VARIABLE i
Flat(ss) == LET RECURSIVE F(_) F(k) == IF k = 0 THEN <<>> ELSE F(k - 1) \o ss[k] IN F(Len(ss))
RootWay(r, t) == IF t.rw <= 0 THEN <<r.init>>
  ELSE Stages([dirs |-> <<r.base, r.init, t.b, t.vel>>, par |-> <<0, 1, 1, 3>>,
               w |-> <<0, S - t.rw, 0, t.rw>>])
Asked(r, t) == LET tw == TreeShare(t.g, 2 * S) IN
  IF tw <= 0 THEN <<>> ELSE
    (IF t.rw > 0 THEN <<[w |-> Mul(t.rw, tw), way |-> TLCEval(RootWay(r, t))]>> ELSE <<>>)
    \o Flat([k \in Idx(t.comps) |-> IF t.comps[k].w > 100
                 THEN <<[w |-> Mul(t.comps[k].w, tw), way |-> t.comps[k].way \o <<t.vel>>]>> ELSE <<>>])
Judge(r) ==
  LET asked == TLCEval(Flat([k \in Idx(r.trees) |-> Asked(r, r.trees[k])]))
      raw == [k \in Idx(asked) |-> asked[k].w]
      w == TLCEval(Limited(Append(raw, 0)))
      here == [dirs |-> <<r.base, r.init>>, par |-> <<0, 1>>, w |-> <<0, S - LimitedTotal(raw)>>]
      tree == TLCEval(Grow(here, [k \in Idx(asked) |-> [way |-> asked[k].way, w |-> w[k]]], 1))
  IN Clause("direction of convergence", ~Decided(raw, 10)
              \/ AngleBetween(Expected(tree), Unit(r.v)) <= 40 + 10 * Len(asked))
     \cup Clause("unit length", Near(Norm(r.v), S, 3))
     \cup Clause("dynamics where nobody asks", asked # <<>> \/ NearVec(r.v, r.init, 5))
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
