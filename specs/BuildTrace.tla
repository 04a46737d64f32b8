------------------------------ MODULE BuildTrace ------------------------------
(* Composed obstacles as they are built: outline of an arch, points where       *)
(* components are joined.  Millimetres.                                         *)
EXTENDS Scene, TraceLib
VARIABLE i
\* signed distance (box norm) to the region  |x - c| <= h
Band(x, c, h) == MaxSeq([j \in 1..Len(x) |-> Abs(x[j] - c[j]) - h[j]])
\* an arch of outer size a and wall w, open towards its first axis: the outer
\* rectangle without the cavity, both shifted by the margin e
Outer(x, a, w, e) == Band(x, <<(a[1] - w) \div 2, 0>>, <<a[1] \div 2 + e, a[2] \div 2 + e>>)
Cavity(x, a, w, e) == Max(w \div 2 + e - x[1], Abs(x[2]) - (a[2] \div 2 - w - e))
ArchGap(x, a, w, e) == Max(Outer(x, a, w, e), -Cavity(x, a, w, e))
Overlap(s, t, p) == Gap(s, p) <= 8 /\ Gap(t, p) <= 8
Judge(r) ==
  CASE r.f = "join" -> Clause("in-both", r.ok /\ Overlap(r.a, r.b, r.ref))
    [] r.f = "apart" -> Clause("refused", ~r.ok) \cup Clause("unchanged", r.kept)
    [] r.f = "arch" ->
         UNION {LET x == Local(r.frame, r.probes[k].p)
                    g == ArchGap(x, r.a, r.w, r.e) IN
                Clause("outline", Abs(g) <= 4 \/ (r.probes[k].free <=> g > 0))
              : k \in 1..Len(r.probes)}
    \cup Clause("three-parts", Len(r.parts) = 3)
    \cup Clause("spine-first", r.parents = <<-1, 0, 0>>)
    \cup UNION {Clause("joined", Overlap(r.parts[1], r.parts[k], r.refs[k])) : k \in 2..Len(r.parts)}
    \cup Clause("settings", \A k \in 1..Len(r.margins) : r.margins[k] = r.e /\ r.scales[k] = r.scale)
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
