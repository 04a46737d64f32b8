------------------------------ MODULE LimbTrace ------------------------------
(* A body of parts which hang at joints of their parents, and what becomes of   *)
(* their poses when a tracker reports (a history of messages), or when a part   *)
(* was moved by hand.                                                           *)
(*  kinds of records                                                            *)
(*  history: parts [par, id, ref joint in the part, at joint in the parent],    *)
(*     half: whether the position filter blends by halves, robot [id, p, m]     *)
(*     or id = -1, steps: [mode, msgs, before, after, robot, shown, sent]       *)
(*  gamma: got, each                                                            *)
(*  copy: from, to: parents, poses, shapes                                      *)
(*  human: parts [par, shape], refs: joint of the part, top: number of parts    *)
(* A pose is [p position, m images of the axes]                                 *)
EXTENDS Scene, TraceLib
VARIABLE i
Dirs(m, v) == [j \in 1..Len(v) |-> DivR(SumSeq([k \in 1..Len(v) |-> m[k][j] * v[k]]), S)]
Into(q, v) == Add(q.p, Dirs(q.m, v))
Back(m, v) == [j \in 1..Len(v) |-> DivR(RawDot(m[j], v), S)]
\* pose q seen from the robot
Seen(rb, q) == [p |-> Back(rb.m, Sub(q.p, rb.p)), m |-> [j \in 1..Len(q.m) |-> Back(rb.m, q.m[j])]]
NoPart == 0
PartOf(parts, id) == IF \E k \in 1..Len(parts) : parts[k].id = id /\ id # -1
                     THEN CHOOSE k \in 1..Len(parts) : parts[k].id = id /\ \A j \in 1..(k - 1) : parts[j].id # id
                     ELSE NoPart
\* the state of the filters: position per part, after the messages of one step
RECURSIVE Filtered(_, _, _, _)
Filtered(f, parts, msgs, half) ==
  IF msgs = <<>> THEN f
  ELSE LET k == PartOf(parts, Head(msgs).id) IN
       Filtered(IF k = NoPart THEN f
                ELSE [f EXCEPT ![k] = IF half THEN [j \in 1..Len(@) |-> DivR(@[j] + Head(msgs).p[j], 2)]
                                      ELSE Head(msgs).p],
                parts, Tail(msgs), half)
Last(msgs, id) == LET s == SelectSeq(msgs, LAMBDA x : x.id = id) IN s[Len(s)]
Got(parts, msgs, k) == \E j \in 1..Len(msgs) : PartOf(parts, msgs[j].id) = k
Robot(rb, msgs) ==
  IF rb.id # -1 /\ \E j \in 1..Len(msgs) : msgs[j].id = rb.id
  THEN LET j == CHOOSE j \in 1..Len(msgs) : msgs[j].id = rb.id /\ \A l \in 1..(j - 1) : msgs[l].id # rb.id
       IN [id |-> rb.id, p |-> msgs[j].p, m |-> msgs[j].m]
  ELSE rb
SameAxes(a, b, tol) == \A j \in 1..Len(a) : NearVec(a[j], b[j], tol)
SamePose(a, b, tol) == NearVec(a.p, b.p, tol) /\ SameAxes(a.m, b.m, tol)
Up == <<0, 0, S>>
JudgePart(r, s, k, rb, f) ==
  LET part == r.parts[k] old == s.before[k] new == s.after[k]
      hit == s.mode = "track" /\ Got(r.parts, s.msgs, k)
      raw == [p |-> f[k], m |-> Last(s.msgs, part.id).m]
      want == IF rb.id = -1 \/ ~s.torobot THEN raw ELSE Seen(rb, raw)
  IN IF part.par = -1 THEN
       (IF ~hit THEN Clause("root kept", SamePose(old, new, 2))
        ELSE Clause("root height", Near(new.p[3], 2000, 2))
             \cup Clause("root position", Near(new.p[1], want.p[1], 8) /\ Near(new.p[2], want.p[2], 8))
             \cup Clause("root upright", NearVec(new.m[3], Up, 2))
             \cup Clause("root heading", ~NearVec(want.m[3], Up, 2) \/ SameAxes(new.m, want.m, 8)))
     ELSE
       LET joint == Into(s.after[part.par + 1], part.at)
           arm == Sub(want.p, joint)
       IN Clause("joint", NearVec(Into(new, part.ref), joint, 8))
          \cup (IF s.mode = "align" THEN Clause("orientation kept", SameAxes(old.m, new.m, 2))
                ELSE IF ~hit THEN Clause("orientation of the parent",
                                         SameAxes(new.m, s.after[part.par + 1].m, 2))
                ELSE IF Norm(arm) < 2500 THEN {}
                ELSE Clause("points at the marker", NearVec(new.m[3], Unit(arm), 8 + 120000 \div Norm(arm)))
                     \cup Clause("shortest turn", Near(new.m[1][2], new.m[2][1], 4)))
RECURSIVE Walk(_, _, _, _)
Walk(r, k, rb, f) ==
  IF k > Len(r.steps) THEN {}
  ELSE LET s == r.steps[k]
           msgs == IF s.mode = "track" THEN s.msgs ELSE <<>>
           rb2 == Robot(rb, msgs)
           f2 == Filtered(f, r.parts, msgs, r.half)
       IN UNION {JudgePart(r, s, j, rb2, f2) : j \in 1..Len(r.parts)}
          \cup Clause("robot", rb.id = -1 \/ SamePose(s.robot, rb2, 1))
          \cup Clause("robot sent", s.sent = (IF rb.id = -1 \/ ~s.whole THEN 0 ELSE 1))
          \cup Clause("shown", s.shown = (IF s.whole THEN 1 ELSE 0))
          \cup Walk(r, k + 1, rb2, f2)
JudgeHistory(r) == Walk(r, 1, r.robot, [k \in 1..Len(r.parts) |-> <<0, 0, 0>>])
JudgeGamma(r) == Clause("least", Near(r.got, -MaxSeq([k \in 1..Len(r.each) |-> -r.each[k]]), 0))
JudgeCopy(r) ==
     Clause("parents", r.to.parents = r.from.parents)
     \cup Clause("parts", r.same)
     \cup Clause("joints", \A k \in 1..Len(r.from.refs) : NearVec(r.to.refs[k], r.from.refs[k], 2))
     \cup Clause("poses", \A k \in 1..Len(r.from.poses) :
            NearVec(r.to.poses[k].p, Into(r.base, r.from.poses[k].p), 6)
            /\ \A j \in 1..Len(r.base.m) :
                 NearVec(r.to.poses[k].m[j], Dirs(r.base.m, r.from.poses[k].m[j]), 6))
Level(sh, p) == LET x == Local(sh, p) IN
  IF sh.k = "box" THEN 1000 + BoxGap(sh, x) ELSE Relative(sh, x)
JudgeHuman(r) ==
     Clause("size", Len(r.parts) = r.top)
     \cup Clause("attached", \A k \in 1..Len(r.parts) : r.parts[k].par = -1 \/
            (Level(r.parts[k].shape, r.refs[k]) <= 1005
             /\ Level(r.parts[r.parts[k].par + 1].shape, r.refs[k]) <= 1005))
     \cup Clause("one body", \A k \in 1..Len(r.parts) : (r.parts[k].par = -1) <=> (k = 1))
Judge(r) ==
  CASE r.kind = "history" -> JudgeHistory(r)
    [] r.kind = "gamma" -> JudgeGamma(r)
    [] r.kind = "copy" -> JudgeCopy(r)
    [] r.kind = "human" -> JudgeHuman(r)
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
