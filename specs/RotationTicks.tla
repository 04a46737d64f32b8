---------------------------- MODULE RotationTicks ----------------------------
(* Rotations between directions of the plane, exactly: directions are angles   *)
(* k * (360/N) degrees, a rotation is (first direction, signed angle).         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Others   \* Others: the rotations used to turn the current rotation
VARIABLES v, rot, act
vars == <<v, rot, act>>
View == <<v, rot>>
Dirs == 0..(N - 1)
Mod(a) == a % N
WrapT(a) == LET m == a % N IN IF m > N \div 2 THEN m - N ELSE m
None == [start |-> -1, delta |-> 0]
State == [v |-> v, rot |-> rot,
          second |-> IF rot = None THEN -1 ELSE Mod(rot.start + rot.delta)]
Init == v = 1 /\ rot = None /\ act = [op |-> "init"]
From(a, b) == [start |-> a, delta |-> WrapT(b - a)]
Make(a, b) == /\ rot = None /\ WrapT(b - a) # N \div 2
              /\ rot' = From(a, b) /\ UNCHANGED v
              /\ act' = [op |-> "make", a |-> a, b |-> b, out |-> "ok"]
Invert == /\ rot # None /\ rot' = [rot EXCEPT !.delta = -@] /\ UNCHANGED v
          /\ act' = [op |-> "inv", out |-> "ok"]
\* rotate by num/2 of the rotation (num even unless the angle is even)
Rotate(num) == /\ rot # None /\ (num * rot.delta) % 2 = 0
               /\ v' = Mod(v + (num * rot.delta) \div 2) /\ UNCHANGED rot
               /\ act' = [op |-> "rotate", num |-> num, out |-> "ok"]
InverseRotate == /\ rot # None /\ v' = Mod(v - rot.delta) /\ UNCHANGED rot
                 /\ act' = [op |-> "inverse_rotate", out |-> "ok"]
\* turning the rotation itself by another one moves its plane, not its angle
TurnRotation(o, num) ==
  LET other == From(o[1], o[2]) IN
  /\ rot # None /\ (num * other.delta) % 2 = 0
  /\ rot' = [rot EXCEPT !.start = Mod(@ + (num * other.delta) \div 2)]
  /\ UNCHANGED v
  /\ act' = [op |-> "turn", a |-> o[1], b |-> o[2], num |-> num, out |-> "ok"]
Next == \/ \E a, b \in Dirs : Make(a, b)
        \/ Invert \/ InverseRotate
        \/ \E k \in {-2, 0, 1, 2, 4} : Rotate(k)
        \/ \E o \in Others, k \in {1, 2} : TurnRotation(o, k)
Spec == Init /\ [][Next]_vars
\* ---- properties of the design
Shortest == rot # None => rot.delta > -(N \div 2) /\ rot.delta < N \div 2
Reaches == [][act'.op = "make" => Mod(rot'.start + rot'.delta) = act'.b]_vars
Undo == [][act'.op = "inverse_rotate" => Mod(v' + rot.delta) = v]_vars
Emit == PrintT(ToJson([pre |-> State, act |-> act', post |-> State']))
=============================================================================
