------------------------------ MODULE Skeleton ------------------------------
(* An obstacle of several components: every component is fixed in the frame of  *)
(* the obstacle, which can be moved and deformed.  Positions are integers,      *)
(* orientations quarter turns, components are discs.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Frames, Places, Probes, MaxN, MaxSize
VARIABLES frame, comps, size, vel, act
vars == <<frame, comps, size, vel, act>>
\* p: <<x, y, quarter turns>>
Turn(k, v) == CASE k % 4 = 0 -> v [] k % 4 = 1 -> <<-v[2], v[1]>>
                [] k % 4 = 2 -> <<-v[1], -v[2]>> [] k % 4 = 3 -> <<v[2], -v[1]>>
Point(p, v) == LET w == Turn(p[3], v) IN <<p[1] + w[1], p[2] + w[2]>>
Place(p, l) == LET c == Point(p, <<l[1], l[2]>>) IN <<c[1], c[2], (p[3] + l[3]) % 4>>
Grown(c) == [c EXCEPT !.at = <<2 * @[1], 2 * @[2], @[3]>>, !.ref = <<2 * @[1], 2 * @[2]>>]
\* a disc of radius 11/10 * size
Inside(c, f, s, v) == LET g == Place(f, c.at) dx == v[1] - g[1] dy == v[2] - g[2]
                      IN 100 * (dx * dx + dy * dy) <= 121 * s * s
Idx == 1..Len(comps)
Free(cs, f, s, v) == \A k \in 1..Len(cs) : ~Inside(cs[k], f, s, v)
Global(f, v) == Point(f, v)
Observed(f, cs, s, v) ==
  [n |-> Len(cs), frame |-> f, vel |-> v,
   poses |-> [k \in 1..Len(cs) |-> Place(f, cs[k].at)],
   refs |-> [k \in 1..Len(cs) |-> Point(Place(f, cs[k].at), cs[k].ref)],
   parents |-> [k \in 1..Len(cs) |-> cs[k].par],
   children |-> [k \in 1..Len(cs) |-> SelectSeq([j \in 1..Len(cs) |-> j - 1],
                    LAMBDA j : cs[j + 1].par = k - 1)],
   free |-> IF Len(cs) = 0 THEN <<>> ELSE [k \in 1..Len(Probes) |-> Free(cs, f, s, Probes[k])],
   freelocal |-> IF Len(cs) = 0 THEN <<>>
        ELSE [k \in 1..Len(Probes) |-> Free(cs, f, s, Global(f, Probes[k]))],
   except |-> [j \in 1..Len(cs) |-> IF Len(cs) = 1 THEN <<>> ELSE [k \in 1..Len(Probes) |->
        Free(SelectSeq([i \in 1..Len(cs) |-> IF i = j THEN [cs[i] EXCEPT !.par = -2] ELSE cs[i]],
                       LAMBDA c : c.par # -2), f, s, Probes[k])]]]
State == Observed(frame, comps, size, vel) @@ [size |-> size]
View == <<frame, comps, size, vel>>
Init == /\ frame \in {Frames[1]} /\ comps = <<>> /\ size = 1 /\ vel = <<0, 0>>
        /\ act = [op |-> "init"]
Root(l) == /\ comps = <<>> /\ comps' = <<[at |-> l, par |-> -1, ref |-> <<0, 0>>]>>
           /\ UNCHANGED <<frame, size, vel>>
           /\ act' = [op |-> "root", at |-> l, size |-> size, out |-> 0]
Add(l, p, r) == /\ comps # <<>> /\ Len(comps) < MaxN /\ p < Len(comps)
                /\ comps' = Append(comps, [at |-> l, par |-> p, ref |-> r])
                /\ UNCHANGED <<frame, size, vel>>
                /\ act' = [op |-> "add", at |-> l, p |-> p, ref |-> r, size |-> size,
                           out |-> Len(comps)]
AddUnknown(l, p) == /\ comps # <<>> /\ p >= Len(comps) /\ UNCHANGED <<frame, comps, size, vel>>
                    /\ act' = [op |-> "add", at |-> l, p |-> p, ref |-> <<0, 0>>, size |-> size,
                               out |-> -1]
Move(f) == /\ f # frame /\ frame' = f /\ UNCHANGED <<comps, size, vel>>
           /\ act' = [op |-> "move", to |-> f]
Grow == /\ 2 * size <= MaxSize /\ comps # <<>> /\ size' = 2 * size
        /\ comps' = [k \in Idx |-> Grown(comps[k])]
        /\ UNCHANGED <<frame, vel>> /\ act' = [op |-> "grow"]
Push(v) == /\ v # vel /\ vel' = v /\ UNCHANGED <<frame, comps, size>>
           /\ act' = [op |-> "push", v |-> v]
Next == \/ \E k \in 1..Len(Places) : Root(Places[k])
        \/ \E k \in 1..Len(Places), p \in 0..MaxN : \/ Add(Places[k], p, <<1 - k, k - 2>>)
                                                    \/ k = 1 /\ AddUnknown(Places[k], p)
        \/ \E k \in 1..Len(Frames) : Move(Frames[k])
        \/ Grow
        \/ \E v \in {<<0, 0>>, <<1, -2>>} : Len(comps) <= 1 /\ Push(v)
Spec == Init /\ [][Next]_vars
\* every component hangs below the first one, through components added before
Rooted == \A k \in Idx : comps[k].par < k - 1 /\ (comps[k].par = -1 <=> k = 1)
\* moving changes no place within the obstacle, and what is free in its frame stays free
Rigid == [][act'.op = "move" => Observed(frame', comps', size', vel').freelocal
                              = Observed(frame, comps, size, vel).freelocal]_vars
Emit == PrintT(ToJson([pre |-> State, act |-> act', post |-> State']))
=============================================================================
