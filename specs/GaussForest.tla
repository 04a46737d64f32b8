----------------------------- MODULE GaussForest -----------------------------
(* Components of a gaussian obstacle are attached one by one: the pair of one left *)
(* and one attached component with the highest odds comes next.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Ranks       \* number of components, possible odds (sets of rankings)
VARIABLES root, odds, parent, order
vars == <<root, odds, parent, order>>
Nodes == 1..N
Attached == {order[k] : k \in 1..Len(order)}
Pairs == (Nodes \ Attached) \X Attached
Best(p) == \A q \in Pairs : odds[p[1]][p[2]] >= odds[q[1]][q[2]]
Init == root = 0 /\ odds = <<>> /\ parent = [k \in Nodes |-> 0] /\ order = <<>>
Start == /\ root = 0
         /\ root' \in Nodes /\ odds' \in Ranks /\ order' = <<root'>> /\ UNCHANGED parent
Attach == /\ root # 0 /\ Pairs # {}
          /\ \E p \in Pairs : /\ Best(p)
                              /\ parent' = [parent EXCEPT ![p[1]] = p[2]]
                              /\ order' = Append(order, p[1])
          /\ UNCHANGED <<root, odds>>
Done == root # 0 /\ Pairs = {}
Next == Start \/ Attach
Spec == Init /\ [][Next]_vars
Place(k) == CHOOSE j \in 1..Len(order) : order[j] = k
RECURSIVE Climb(_, _)
Climb(k, n) == IF n = 0 \/ parent[k] = 0 THEN k ELSE Climb(parent[k], n - 1)
\* every attached component leads to the root through ones attached earlier
Rooted == \A k \in Attached : Climb(k, N) = root /\ (k # root => Place(parent[k]) < Place(k))
OneRoot == \A k \in Attached : parent[k] = 0 <=> k = root
Loose == \A k \in Nodes \ Attached : parent[k] = 0
\* nobody attached before was a better parent
Suited == \A k \in Attached \ {root} : \A j \in Attached :
             (j # k /\ Place(j) < Place(k)) => odds[k][parent[k]] >= odds[k][j]
Show == Done => PrintT(ToJson([root |-> root, odds |-> odds, parent |-> parent, order |-> order]))
=============================================================================
