---------------------------- MODULE SequenceTicks ----------------------------
(* A sequence of rotations of the plane: start direction and signed turns.     *)
(* Directions are ticks (N per turn); query results are quarter ticks.         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Starts, Turns, MaxLen, Rotors
VARIABLES start, turns, act     \* start = -1: no sequence yet
vars == <<start, turns, act>>
View == <<start, turns>>
Mod(a) == a % N
WrapT(a) == LET m == a % N IN IF m > N \div 2 THEN m - N ELSE m
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Vert(k) == Mod(start + Sum(SubSeq(turns, 1, k)))      \* k = 0..Len(turns)
State == [start |-> start, turns |-> turns,
          verts |-> IF start < 0 THEN <<>> ELSE [k \in 1..(Len(turns) + 1) |-> Vert(k - 1)]]
Init == start = -1 /\ turns = <<>> /\ act = [op |-> "init"]
Ticks(s, t) == [k \in 1..(Len(t) + 1) |-> Mod(s + Sum(SubSeq(t, 1, k - 1)))]
Create(s, t) == /\ start = -1 /\ start' = s /\ turns' = t
                /\ act' = [op |-> "create", ticks |-> Ticks(s, t), out |-> "ok"]
CreateZero(s, t, k) == /\ start = -1 /\ UNCHANGED <<start, turns>>
                /\ act' = [op |-> "create_zero", ticks |-> Ticks(s, t), at |-> k, out |-> "ValueError"]
CreateOpposite(s) == /\ start = -1 /\ s % (N \div 4) = 0 /\ UNCHANGED <<start, turns>>
                /\ act' = [op |-> "create", ticks |-> <<s, Mod(s + N \div 2)>>, out |-> "ValueError"]
Room == start >= 0 /\ Len(turns) < MaxLen
AppendDirection(d) == /\ Room /\ turns' = Append(turns, d) /\ UNCHANGED start
                /\ act' = [op |-> "append_direction", to |-> Mod(Vert(Len(turns)) + d), out |-> "ok"]
AppendBase(d) == /\ Room /\ turns' = Append(turns, d) /\ UNCHANGED start
                /\ act' = [op |-> "append_base", from |-> Vert(Len(turns)),
                           to |-> Mod(Vert(Len(turns)) + d), out |-> "ok"]
PushRoot(d) == /\ Room /\ turns' = <<d>> \o turns /\ start' = Mod(start - d)
                /\ act' = [op |-> "push_root", from |-> Mod(start - d), to |-> start, out |-> "ok"]
TurnAll(r, num) == /\ start >= 0 /\ (num * WrapT(r[2] - r[1])) % 2 = 0
                /\ start' = Mod(start + (num * WrapT(r[2] - r[1])) \div 2) /\ UNCHANGED turns
                /\ act' = [op |-> "turn", a |-> r[1], b |-> r[2], num |-> num, out |-> "ok"]
\* queries (do not change the sequence)
Same == UNCHANGED <<start, turns>>
Rotate(v, qf) == /\ start >= 0 /\ Same
   /\ act' = [op |-> "rotate", v |-> v, f |-> qf, out |-> (4 * v + qf * Sum(turns)) % (4 * N)]
\* weights are quarters; a weight on the k-th rotation turns through the first k ones
Cum(w, k) == Sum(SubSeq(w, k, Len(w)))
Weighted(v, w) == /\ start >= 0 /\ Len(w) = Len(turns) /\ Same
   /\ act' = [op |-> "rotate_weighted", v |-> v, w |-> w,
              out |-> (4 * v + Sum([k \in 1..Len(w) |-> Cum(w, k) * turns[k]])) % (4 * N)]
End == /\ start >= 0 /\ Same
       /\ act' = [op |-> "end", out |-> 4 * Vert(Len(turns))]
WeightSets == {<<4>>, <<3>>, <<0>>, <<4, 0>>, <<0, 4>>, <<1, 3>>, <<2, 2>>, <<4, 0, 0>>,
               <<0, 4, 0>>, <<0, 0, 4>>, <<1, 2, 1>>, <<2, 0, 2>>, <<0, 2, 2>>}
TurnSeqs == UNION {[1..n -> Turns] : n \in 1..MaxLen}
Next == \/ \E s \in Starts, t \in TurnSeqs : Create(s, t)
        \/ \E s \in Starts, t \in [1..2 -> Turns], k \in 1..3 : CreateZero(s, t, k)
        \/ \E s \in Starts : CreateOpposite(s)
        \/ \E d \in Turns : AppendDirection(d) \/ AppendBase(d) \/ PushRoot(d)
        \/ \E r \in Rotors, k \in {1, 2} : TurnAll(r, k)
        \/ \E v \in {1, 5}, f \in {0, 2, 4} : Rotate(v, f)
        \/ \E v \in {start, 5}, w \in WeightSets : v >= 0 /\ Weighted(v, w)
        \/ End
Spec == Init /\ [][Next]_vars
Chained == start >= 0 => \A k \in 1..Len(turns) : Mod(Vert(k - 1) + turns[k]) = Vert(k)
FullRotationReachesEnd == [][(act'.op = "rotate" /\ act'.v = start /\ act'.f = 4)
                               => act'.out = 4 * Vert(Len(turns))]_vars
Emit == PrintT(ToJson([pre |-> State, act |-> act', post |-> State']))
=============================================================================
