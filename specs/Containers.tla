----------------------------- MODULE Containers -----------------------------
(* A container of obstacles which are appended and moved: free is what is free  *)
(* of each of them.  Obstacle k is a disc of radius 11/10 with an optional      *)
(* second disc beside it.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Spots, Probes, NumObstacles
VARIABLES list, at, act
vars == <<list, at, act>>
Obstacles == 1..NumObstacles
Parts(k, p) == IF k % 2 = 1 THEN {p} ELSE {p, <<p[1] + 1, p[2]>>}
Hit(k, p, v) == \E c \in Parts(k, p) :
    LET dx == v[1] - c[1] dy == v[2] - c[2] IN 100 * (dx * dx + dy * dy) <= 121
Free(l, a, v) == \A j \in 1..Len(l) : ~Hit(l[j], a[l[j]], v)
Observed(l, a) == [n |-> Len(l), list |-> l, places |-> [j \in 1..Len(l) |-> a[l[j]]],
                   free |-> [k \in 1..Len(Probes) |-> Free(l, a, Probes[k])]]
State == Observed(list, at) @@ [at |-> at]
View == <<list, at>>
Init == /\ list = <<>> /\ at = [k \in Obstacles |-> Spots[1]] /\ act = [op |-> "init"]
Append1(k) == /\ \A j \in 1..Len(list) : list[j] # k
              /\ list' = Append(list, k) /\ UNCHANGED at /\ act' = [op |-> "append", k |-> k]
Move(k, s) == /\ at[k] # Spots[s] /\ at' = [at EXCEPT ![k] = Spots[s]] /\ UNCHANGED list
              /\ act' = [op |-> "move", k |-> k, to |-> Spots[s]]
Next == \E k \in Obstacles : Append1(k) \/ \E s \in 1..Len(Spots) : Move(k, s)
Spec == Init /\ [][Next]_vars
\* appending only takes free space away
Shrinks == [][act'.op = "append" => \A k \in 1..Len(Probes) :
               Free(list', at', Probes[k]) => Free(list, at, Probes[k])]_vars
Emit == PrintT(ToJson([pre |-> State, act |-> act', post |-> State']))
=============================================================================
