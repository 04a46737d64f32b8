---------------------------- MODULE LinkedForest ----------------------------
(* Linked graph elements (value, parent, children) and the handler owning them. *)
(* Elements are 1..Max; an element exists once created.  Two elements may carry *)
(* equal values: identity, not value, decides who is linked to whom.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Max, WithHandler
VARIABLES made,      \* number of elements created so far
          parent,    \* parent[e] : 0 if none
          kids,      \* kids[e]   : ordered sequence of children
          owned,     \* elements the handler currently holds
          root,      \* the handler's root, 0 if never set
          act
vars == <<made, parent, kids, owned, root, act>>
State == [made |-> made, parent |-> parent, kids |-> kids, owned |-> owned, root |-> root]
View == State
E == 1..Max
Live == 1..made
Without(s, e) == SelectSeq(s, LAMBDA x : x # e)
RECURSIVE Above(_, _)
Above(e, p) == IF e = 0 THEN {} ELSE {e} \cup Above(p[e], p)
Init == /\ made = (IF WithHandler THEN 0 ELSE Max)
        /\ parent = [e \in E |-> 0] /\ kids = [e \in E |-> <<>>]
        /\ owned = {} /\ root = 0 /\ act = [op |-> "init"]
\* making p the parent of c: c leaves its former parent, joins p's children once
Linked(p, c) ==
  IF parent[c] = p THEN UNCHANGED <<parent, kids>>
  ELSE /\ parent' = [parent EXCEPT ![c] = p]
       /\ kids' = [e \in E |-> IF e = p THEN Append(kids[e], c)
                               ELSE IF e = parent[c] THEN Without(kids[e], c)
                               ELSE kids[e]]
AddChild(p, c) == /\ c \notin Above(p, parent)
                  /\ Linked(p, c)
                  /\ UNCHANGED <<made, owned, root>>
                  /\ act' = [op |-> "add_child", p |-> p, c |-> c, out |-> "ok"]
SetParent(c, p) == /\ c \notin Above(p, parent)
                   /\ Linked(p, c)
                   /\ UNCHANGED <<made, owned, root>>
                   /\ act' = [op |-> "set_parent", p |-> p, c |-> c, out |-> "ok"]
Detached(e) == /\ parent' = [x \in E |-> IF x = e \/ parent[x] = e THEN 0 ELSE parent[x]]
               /\ kids' = [x \in E |-> IF x = e THEN <<>> ELSE Without(kids[x], e)]
Expel(e) == /\ Detached(e) /\ UNCHANGED <<made, owned, root>>
            /\ act' = [op |-> "expel", e |-> e, out |-> "ok"]
\* ---- handler
SetRoot == /\ WithHandler /\ made < Max /\ root = 0
           /\ made' = made + 1 /\ root' = made + 1 /\ owned' = owned \cup {made + 1}
           /\ UNCHANGED <<parent, kids>>
           /\ act' = [op |-> "root", out |-> "ok"]
AddWithParent(p) == /\ WithHandler /\ made < Max /\ p \in owned
                    /\ made' = made + 1
                    /\ parent' = [parent EXCEPT ![made + 1] = p]
                    /\ kids' = [kids EXCEPT ![p] = Append(@, made + 1)]
                    /\ owned' = owned \cup {made + 1}
                    /\ UNCHANGED root
                    /\ act' = [op |-> "add_with_parent", p |-> p, out |-> "ok"]
Delete(e) == /\ WithHandler /\ e \in owned /\ e # root
             /\ Detached(e) /\ owned' = owned \ {e} /\ UNCHANGED <<made, root>>
             /\ act' = [op |-> "delete", e |-> e, out |-> "ok"]
Next == \/ \E p, c \in Live : p # c /\ (AddChild(p, c) \/ SetParent(c, p))
        \/ \E e \in Live : Expel(e) \/ Delete(e)
        \/ SetRoot
        \/ \E p \in Live : AddWithParent(p)
Spec == Init /\ [][Next]_vars
\* ---- the property
TypeOK == /\ parent \in [E -> 0..Max] /\ owned \subseteq Live
Symmetric == \A p, c \in E : (parent[c] = p) <=>
               (Cardinality({i \in 1..Len(kids[p]) : kids[p][i] = c}) = 1)
NoDuplicates == \A p \in E : \A i, j \in 1..Len(kids[p]) :
                   kids[p][i] = kids[p][j] => i = j
Acyclic == \A e \in E : e \notin (IF parent[e] = 0 THEN {} ELSE Above(parent[e], parent))
DeletedIsolated == \A e \in Live : (WithHandler /\ e \notin owned) =>
                      \A x \in owned : TRUE
\* an operation only touches the links of the elements it names
Frame == [][\A e \in E : (parent'[e] # parent[e]) =>
             \/ act'.op \in {"add_child", "set_parent"} /\ e = act'.c
             \/ act'.op \in {"expel", "delete"} /\ (e = act'.e \/ parent[e] = act'.e)
             \/ act'.op = "add_with_parent" /\ e = made']_vars
Emit == PrintT(ToJson([pre |-> State, act |-> act', post |-> State']))
=============================================================================
