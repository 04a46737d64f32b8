---------------------------- MODULE SequenceTrace ----------------------------
(* Rotation sequences in 2 to 5 dimensions: a partially applied rotation drags *)
(* everything that follows it back by the part that was not applied.           *)
EXTENDS FixMath, TraceLib
VARIABLE i
T == 25
Planes(verts) == [k \in 1..(Len(verts) - 1) |->
   [b0 |-> Unit(verts[k]),
    b1 |-> IF Aligned(verts[k], verts[k+1]) THEN Zero(Len(verts[k]))
           ELSE PerpOf(verts[k], verts[k+1]),
    th |-> IF Aligned(verts[k], verts[k+1]) THEN 0 ELSE AngleBetween(verts[k], verts[k+1])]]
TurnPlane(p, b0, b1, a) == [p EXCEPT !.b0 = RotPlane(@, b0, b1, a), !.b1 = RotPlane(@, b0, b1, a)]
RECURSIVE Run(_, _, _)
Run(planes, cs, v) ==
  IF planes = <<>> THEN v
  ELSE LET h == Head(planes) c == Head(cs)
           rest == [k \in 1..(Len(planes) - 1) |->
                       TurnPlane(planes[k + 1], h.b0, h.b1, Mul(c - S, h.th))]
       IN Run(rest, Tail(cs), RotPlane(v, h.b0, h.b1, Mul(c, h.th)))
CumW(w, k) == SumSeq(SubSeq(w, k, Len(w)))
Expected(verts, w, v) == Run(Planes(verts), [k \in 1..Len(w) |-> CumW(w, k)], v)
Judge(r) ==
  LET n == Len(r.verts) - 1 IN
     Clause("finite", Finite(r.weighted) /\ Finite(r.end) /\ Finite(r.full))
  \cup Clause("number-of-rotations", r.n = n)
  \cup Clause("end-vector", NearVec(r.end, Unit(r.verts[n + 1]), T))
  \cup Clause("full-rotation", NearVec(r.full, Unit(r.verts[n + 1]), T))
  \cup Clause("weighted", NearVec(r.weighted, Expected(r.verts, r.w, r.v), 2 * T))
  \cup Clause("weighted-length", Near(Norm(r.weighted), Norm(r.v), T))
  \cup Clause("one-hot", NearVec(r.hot, Unit(r.verts[r.k + 1]), T))
  \cup Clause("turned-end", NearVec(r.tend, RotateFromTo(Unit(r.verts[n + 1]), r.ra, r.rb, r.rf), 2 * T))
  \cup Clause("turned-start", NearVec(r.tstart, RotateFromTo(Unit(r.verts[1]), r.ra, r.rb, r.rf), 2 * T))
  \cup Clause("appended-end", NearVec(r.aend, Unit(r.extra), T))
  \cup Clause("appended-full", NearVec(r.afull, Unit(r.extra), T))
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
