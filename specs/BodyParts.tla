------------------------------ MODULE BodyParts ------------------------------
(* Named body parts in the order in which they were attached; each but the     *)
(* first hangs at an earlier one, and some carry the identifier of a tracker.   *)
(* Names and identifiers may repeat: the earliest part is meant.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, Ids, MaxN
VARIABLES parts, act
vars == <<parts, act>>
NoId == -1
First(k, Q(_)) == IF \E i \in 1..Len(parts) : Q(parts[i])
                  THEN (CHOOSE i \in 1..Len(parts) : Q(parts[i]) /\ \A j \in 1..(i - 1) : ~Q(parts[j])) - 1
                  ELSE k
Observed(ps) ==
  [n |-> Len(ps), names |-> [i \in 1..Len(ps) |-> ps[i].name],
   parents |-> [i \in 1..Len(ps) |-> ps[i].par],
   ids |-> [i \in 1..Len(ps) |-> ps[i].id]]
State == Observed(parts)
View == parts
Init == parts = <<>> /\ act = [op |-> "init"]
Root(n, u) == /\ parts = <<>> /\ parts' = <<[name |-> n, par |-> -1, id |-> u]>>
              /\ act' = [op |-> "root", n |-> n, u |-> u, out |-> 0]
Attach(n, p, u) ==
  /\ parts # <<>> /\ Len(parts) < MaxN
  /\ LET q == First(-1, LAMBDA x : x.name = p) IN
       /\ parts' = IF q = -1 THEN parts ELSE Append(parts, [name |-> n, par |-> q, id |-> u])
       /\ act' = [op |-> "attach", n |-> n, p |-> p, u |-> u, out |-> IF q = -1 THEN -1 ELSE 0]
ByName(n) == /\ UNCHANGED parts
             /\ act' = [op |-> "by_name", n |-> n, out |-> First(-1, LAMBDA x : x.name = n)]
ById(u) == /\ UNCHANGED parts
           /\ act' = [op |-> "by_id", u |-> u, out |-> First(-1, LAMBDA x : x.id = u)]
Next == \/ \E n \in Names, u \in Ids \cup {NoId} : Root(n, u) \/ \E p \in Names : Attach(n, p, u)
        \/ \E n \in Names : ByName(n)
        \/ \E u \in Ids : ById(u)
Spec == Init /\ [][Next]_vars
\* no part is ever lost or moved, and the parts form one tree
Tree == \A i \in 1..Len(parts) : parts[i].par = -1 <=> i = 1
Earlier == \A i \in 1..Len(parts) : parts[i].par < i - 1 \/ i = 1
Grows == [][Len(parts') >= Len(parts) /\ SubSeq(parts', 1, Len(parts)) = parts]_vars
Emit == PrintT(ToJson([pre |-> State, act |-> act', post |-> State']))
=============================================================================
