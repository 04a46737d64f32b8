------------------------------ MODULE TreeTrace ------------------------------
(* Weighted means of direction trees in 2 to 5 dimensions, judged by TreeMean.  *)
EXTENDS TreeMean, TraceLib
VARIABLE i
T == 40
Judge(r) ==
     Clause("finite", Finite(r.mean))
  \cup Clause("unit-length", Near(Norm(r.mean), S, 15))
  \cup Clause("definition", NearVec(r.mean, Expected(r), T + 12 * Len(r.par)))
  \cup Clause("one-hot", r.hot = 0 \/ NearVec(r.mean, Unit(r.dirs[r.hot]), 15))
  \cup Clause("order-of-nodes", NearVec(r.mean, r.shuffled, 5))
  \cup Clause("moves-with-frame", NearVec(r.framed, [k \in 1..Len(r.mean) |-> r.sign[k] * r.mean[r.perm[k]]], 5))
  \cup Clause("end-of-sequence", NearVec(r.mean, r.send, 5))
  \cup Clause("sequence-applied-to-root", NearVec(r.mean, r.sapplied, 5))
  \cup Clause("direction-length-irrelevant", NearVec(r.mean, r.scaled, 5))
  \cup Clause("tree-unchanged", r.unchanged = 1)
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
