----------------------------- MODULE Simulation -----------------------------
(* Simulated robots.  A robot on the plane moves along a field of velocities in  *)
(* steps of one time unit until it rests, collides, arrives or has run for long  *)
(* enough.  The field and the obstacles are chosen as the robot explores them,   *)
(* and stay as they are afterwards.                                             *)
(*  unit runs:  the robot moves at unit speed, stops where the velocity vanishes *)
(*              or in front of an obstacle; it keeps the places it moved on from.*)
(*  timed runs: the robot moves by its velocity until it is at its goal.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Unit,      \* TRUE: unit speed, FALSE: the velocity as it is
          Length,    \* largest number of places (unit) or of moves (timed)
          Speeds,    \* lengths of the velocities of the field
          Goals      \* timed: places at which a run ends
VARIABLES field, wall, path, status, goal, run
vars == <<field, wall, path, status, goal, run>>
Start == <<0, 0>>
Here == path[Len(path)]
Headings == {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>}
Rest == <<0, 0>>
Velocities == {Rest} \cup {<<s * h[1], s * h[2]>> : s \in Speeds, h \in Headings}
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sign(k) == IF k > 0 THEN 1 ELSE IF k < 0 THEN -1 ELSE 0
Move(v) == IF Unit THEN <<Sign(v[1]), Sign(v[2])>> ELSE v
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Known(f, k, choices) == IF k \in DOMAIN f THEN {f[k]} ELSE choices
Full == Len(path) = (IF Unit THEN run ELSE run + 1)
Init == /\ field = <<>> /\ wall = (Start :> FALSE) /\ path = <<Start>> /\ status = "moving"
        /\ run \in 2..Length /\ goal \in Goals
\* one velocity for each place, one answer about obstacles for each place
Step(v) ==
  LET next == Plus(Here, Move(v)) IN
  /\ status = "moving" /\ ~Full
  /\ v \in Known(field, Here, Velocities)
  /\ field' = Put(field, Here, v)
  /\ UNCHANGED <<goal, run>>
  /\ IF Unit /\ v = Rest
       THEN \* the place of rest itself is not kept
            /\ status' = "rest" /\ UNCHANGED wall
            /\ path' = SubSeq(path, 1, Len(path) - 1)
       ELSE \E w \in (IF Unit THEN Known(wall, next, BOOLEAN) ELSE {FALSE}) :
            /\ wall' = Put(wall, next, w)
            /\ IF w THEN status' = "collision" /\ UNCHANGED path
                    ELSE /\ path' = Append(path, next)
                         /\ status' = IF ~Unit /\ next = goal THEN "arrived" ELSE "moving"
Stop == /\ status = "moving" /\ Full /\ status' = "complete"
        /\ UNCHANGED <<field, wall, path, goal, run>>
Next == Stop \/ \E v \in Velocities : Step(v)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
Done == status # "moving"
\* no kept place is inside of an obstacle
Free == \A k \in 1..Len(path) : ~wall[path[k]]
\* each place follows from the one before along the field
Follows == \A k \in 1..(Len(path) - 1) : path[k + 1] = Plus(path[k], Move(field[path[k]]))
UnitSteps == Unit => \A k \in 1..(Len(path) - 1) :
   LET d == <<path[k + 1][1] - path[k][1], path[k + 1][2] - path[k][2]>> IN d[1] * d[1] + d[2] * d[2] = 1
Bounded == Len(path) <= run + (IF Unit THEN 0 ELSE 1)
\* runs end early for a reason only
Early == (Done /\ Len(path) < (IF Unit THEN run ELSE run + 1)) => status \in {"rest", "collision", "arrived"}
NotBeyond == ~Unit => \A k \in 2..(Len(path) - 1) : path[k] # goal
Ends == <>Done
Pairs(f) == LET RECURSIVE L(_)
                L(s) == IF s = {} THEN <<>> ELSE LET k == CHOOSE k \in s : TRUE IN <<<<k, f[k]>>>> \o L(s \ {k})
            IN L(DOMAIN f)
Emit == Done' => PrintT(ToJson([run |-> run, goal |-> goal, status |-> status', path |-> path',
                               field |-> Pairs(field'), wall |-> Pairs(wall')]))
=============================================================================
