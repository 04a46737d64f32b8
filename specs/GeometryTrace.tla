---------------------------- MODULE GeometryTrace ----------------------------
(* Points on rays, planes spanned by vectors, outlines and overlaps of shapes.   *)
(* kinds of records                                                               *)
(*  ray:  a, b ends, p point, got                                                 *)
(*  span: a, b unit vectors, got first and second axis                            *)
(*  outline: shape, pts points of its outline                                     *)
(*  overlap: a, b shapes, got point or <<>>, twin: for the swapped shapes,        *)
(*           seen: a point well inside both or <<>>                               *)
(*  door:  inner, outer: gamma inside and outside, edge: gamma at the wall, pow, w *)
(*  hull:  outer, rooms: whether the position is inside of them, got: in a wall   *)
(*  word:  word, want                                                             *)
EXTENDS Scene, TraceLib
VARIABLE i
JudgeRay(r) ==
  LET d == Sub(r.b, r.a) n == Norm(d)
      u == IF n = 0 THEN Zero(Len(d)) ELSE Unit(d)
      t == Dot(Sub(r.p, r.a), u)
  IN Clause("closest point", NearVec(r.got, IF t <= 0 THEN r.a ELSE Add(r.a, Scale(t, u)), 16))
JudgeSpan(r) ==
  LET p == r.got[1] q == r.got[2] k == Dot(r.b, q) IN
     Clause("first", NearVec(p, r.a, 2))
     \cup Clause("orthonormal", Near(Norm(q), S, 3) /\ Near(Dot(p, q), 0, 4))
     \cup Clause("spanned", NearVec(r.b, Add(Scale(Dot(r.a, r.b), p), Scale(k, q)), 8))
     \cup Clause("side", k >= -4)
\* 1000 on the surface
Level(sh, p) == LET x == Local(sh, p) IN
  IF sh.k = "box" THEN 1000 + BoxGap(sh, x) ELSE Relative(sh, x)
JudgeOutline(r) ==
     Clause("on the surface", \A k \in 1..Len(r.pts) : Near(Level(r.shape, r.pts[k]), 1000, 6))
     \cup Clause("all around", \A j \in 1..Len(r.shape.c) : \A s \in {-1, 1} :
              \E k \in 1..Len(r.pts) : s * Local(r.shape, r.pts[k])[j] >= DivR(98 * r.shape.ax[j], 100))
JudgeOverlap(r) ==
     Clause("overlap missed", r.seen = <<>> \/ Len(r.got) = 2)
     \cup Clause("inside both", r.got = <<>> \/
                (Level(r.a, r.got) <= 1005 /\ Level(r.b, r.got) <= 1005))
     \cup Clause("swapped", Len(r.got) = Len(r.twin))
JudgeDoor(r) ==
  LET w == IF r.inner <= S \/ r.outer >= S THEN 0
           ELSE IF r.edge <= S THEN S
           ELSE PowR(DivR(S * S, r.edge), Mul(r.outer, r.pow))
  IN Clause("opening", Near(r.w, w, 25))
Judge(r) ==
  CASE r.kind = "ray" -> JudgeRay(r)
    [] r.kind = "span" -> JudgeSpan(r)
    [] r.kind = "outline" -> JudgeOutline(r)
    [] r.kind = "overlap" -> JudgeOverlap(r)
    [] r.kind = "door" -> JudgeDoor(r)
    [] r.kind = "hull" -> Clause("wall", r.got = (r.outer /\ ~(\E k \in 1..Len(r.rooms) : r.rooms[k])))
    [] r.kind = "word" -> Clause("word", r.word = r.want)
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
