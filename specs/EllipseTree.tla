----------------------------- MODULE EllipseTree -----------------------------
(* Ellipses which are linked to a tree one by one; root and parents are chosen  *)
(* once.  Element k stands at column k; neighbours overlap.                     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxN
VARIABLES n, root, par, kids, act
vars == <<n, root, par, kids, act>>
Idx == 0..(n - 1)
State == [n |-> n, root |-> root, par |-> par]
View == <<n, root, par>>
Init == n = 0 /\ root = -1 /\ par = <<>> /\ kids = <<>> /\ act = [op |-> "init"]
Add == /\ n < MaxN /\ n' = n + 1 /\ par' = Append(par, -9) /\ kids' = Append(kids, <<>>)
       /\ UNCHANGED root /\ act' = [op |-> "append", out |-> "ok"]
Root(k) == /\ root = -1 => par[k + 1] = -9
           /\ IF root # -1 THEN UNCHANGED <<root, par>>
              ELSE root' = k /\ par' = [par EXCEPT ![k + 1] = -1]
           /\ UNCHANGED <<n, kids>>
           /\ act' = [op |-> "root", k |-> k, out |-> IF root # -1 THEN "refused" ELSE "ok"]
Near(k, p) == k - p \in {-1, 1}
RECURSIVE Above(_)
Above(k) == IF k < 0 THEN {} ELSE {k} \cup Above(par[k + 1])
Link(k, p) == /\ k # p /\ k \notin Above(p)
              /\ LET ok == par[k + 1] = -9 /\ Near(k, p) IN
                 /\ IF ok THEN /\ par' = [par EXCEPT ![k + 1] = p]
                               /\ kids' = [kids EXCEPT ![p + 1] = Append(@, k)]
                    ELSE UNCHANGED <<par, kids>>
                 /\ UNCHANGED <<n, root>>
                 /\ act' = [op |-> "link", k |-> k, p |-> p,
                            out |-> IF ok THEN "ok" ELSE "refused"]
Next == Add \/ \E k \in Idx : Root(k) \/ \E p \in Idx : Link(k, p)
Spec == Init /\ [][Next]_vars
OneParent == \A k \in Idx : (par[k + 1] >= 0) =>
               \A p \in Idx : (\E j \in 1..Len(kids[p + 1]) : kids[p + 1][j] = k) <=> par[k + 1] = p
Emit == PrintT(ToJson([pre |-> State, act |-> act', post |-> State']))
=============================================================================
