----------------------------- MODULE WeightTrace -----------------------------
(* Recorded calls of the sharing rules with arbitrary values.                   *)
EXTENDS Weights, TraceLib
VARIABLE i
T == 15
Judge(r) ==
  CASE r.f = "limited" ->
         Clause("definition", ~Decided(r.in, Len(r.in)) \/ NearVec(r.out, Limited(r.in), T))
    \cup Clause("total", Near(r.total, LimitedTotal(r.in), T))
    \cup Clause("at-most-one", AtMostOne(r.out))
    [] r.f = "closeness" ->
         Clause("definition", NearVec(r.out, Closeness(r.in, r.min, r.p, r.limit), 4 * T))
    \cup Clause("order", OrderTurned(r.in, r.out))
    \cup Clause("at-most-one", r.limit => AtMostOne(r.out))
    [] r.f = "visible" ->
         Clause("definition", NearVec(r.out, Visible(r.in), T))
    \cup Clause("partition", IsPartition(r.out))
    [] r.f = "outside" ->
         Clause("definition", NearVec(r.out, Outside(r.in), T))
    [] r.f = "tree" -> Clause("definition", Near(r.out, TreeShare(r.in, r.far), T))
    [] r.f = "influence" ->
         Clause("partition", IsPartition(r.out))
    \cup Clause("least-occluded", OrderKept([k \in Idx(r.in) |-> Min(r.in[k], r.top)], r.out))
    \cup Clause("hidden-gets-nothing", \A k \in Idx(r.in) : \E j \in Idx(r.in) :
             (r.in[k] <= S /\ r.in[j] > S + r.margin) => r.out[k] = 0)
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
