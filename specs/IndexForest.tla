----------------------------- MODULE IndexForest -----------------------------
(* The index based hierarchy: named nodes in insertion order, one optional     *)
(* parent each, ordered children, several roots.                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, Unknown, Start   \* Start: sequence of the names present initially
VARIABLES order, par, kids, act   \* order: names; par: [name -> name or "-"]; kids
vars == <<order, par, kids, act>>
Present == {order[i] : i \in 1..Len(order)}
None == "-"
Without(s, e) == SelectSeq(s, LAMBDA x : x # e)
RECURSIVE Flat(_, _)
\* breadth first: first the roots in order, then children of each visited node
Flat(todo, k) == IF todo = <<>> THEN <<>>
                 ELSE <<Head(todo)>> \o Flat(Tail(todo) \o k[Head(todo)], k)
RootsOf(o, p) == SelectSeq(o, LAMBDA n : p[n] = None)
RootIdx(o, p) == SelectSeq([i \in 1..Len(o) |-> i - 1], LAMBDA i : p[o[i + 1]] = None)
Observed(o, p, k) ==
  [n |-> Len(o), roots |-> RootsOf(o, p), root_idx |-> RootIdx(o, p),
   parents |-> [i \in 1..Len(o) |-> p[o[i]]],
   children |-> [i \in 1..Len(o) |-> k[o[i]]],
   descending |-> Flat(RootsOf(o, p), k)]
State == Observed(order, par, kids) @@ [order |-> order]
View == <<order, par, kids>>
RECURSIVE Above(_, _)
Above(e, p) == IF e = None THEN {} ELSE {e} \cup Above(p[e], p)
Init == /\ order = Start /\ par = [n \in Names |-> None]
        /\ kids = [n \in Names |-> <<>>] /\ act = [op |-> "init"]
SetRoot(n) == /\ n \notin Present /\ order' = Append(order, n) /\ UNCHANGED <<par, kids>>
              /\ act' = [op |-> "set_root", n |-> n, out |-> "ok"]
Add(n, p) == /\ n \notin Present /\ p \in Present
             /\ order' = Append(order, n) /\ par' = [par EXCEPT ![n] = p]
             /\ kids' = [kids EXCEPT ![p] = Append(@, n)]
             /\ act' = [op |-> "add", n |-> n, p |-> p, out |-> "ok"]
AddUnknown(n, p) == /\ n \notin Present /\ p \notin Present /\ p # n
                    /\ UNCHANGED <<order, par, kids>>
                    /\ act' = [op |-> "add", n |-> n, p |-> p, out |-> "ValueError"]
SetPar(n, p) == /\ {n, p} \subseteq Present /\ n \notin Above(p, par)
                /\ IF par[n] = p THEN UNCHANGED <<par, kids>>
                   ELSE /\ par' = [par EXCEPT ![n] = p]
                        /\ kids' = [x \in Names |->
                             IF x = p THEN Append(kids[x], n)
                             ELSE IF x = par[n] THEN Without(kids[x], n) ELSE kids[x]]
                /\ UNCHANGED order
                /\ act' = [op |-> "set_parent", n |-> n, p |-> p, out |-> "ok"]
SetParUnknown(n, p) == /\ n \in Present /\ p \notin Present /\ UNCHANGED <<order, par, kids>>
                /\ act' = [op |-> "set_parent", n |-> n, p |-> p, out |-> "ValueError"]
Query(n) == /\ n \notin Present /\ UNCHANGED <<order, par, kids>>
            /\ act' = [op |-> "query", n |-> n, out |-> "ValueError"]
Next == \/ \E n \in Names : SetRoot(n)
        \/ \E n \in Names, p \in Names \cup {Unknown} :
              n # p /\ (Add(n, p) \/ AddUnknown(n, p) \/ SetPar(n, p) \/ SetParUnknown(n, p))
        \/ \E n \in {Unknown} : Query(n)
Spec == Init /\ [][Next]_vars
Symmetric == \A n, p \in Present :
               (par[n] = p) <=> (Cardinality({i \in 1..Len(kids[p]) : kids[p][i] = n}) = 1)
DescendingComplete ==
  LET d == Flat(RootsOf(order, par), kids) IN
    /\ Len(d) = Len(order) /\ {d[i] : i \in 1..Len(d)} = Present
    /\ \A i \in 1..Len(d) : par[d[i]] = None \/ \E j \in 1..(i - 1) : d[j] = par[d[i]]
ErrorsChangeNothing == [][act'.out = "ValueError" => UNCHANGED <<order, par, kids>>]_vars
Emit == PrintT(ToJson([pre |-> State, act |-> act', post |-> State']))
=============================================================================
