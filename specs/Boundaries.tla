----------------------------- MODULE Boundaries -----------------------------
(* Walls of an environment in a container: elements are found by their index,   *)
(* each is linked to at most one parent, and elements can be removed.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, Makes
VARIABLES items, par, kids, made, act     \* items: identities in order; links by identity
vars == <<items, par, kids, made, act>>
Ids == 1..Makes
N == Len(items)
IdxOf(s, e) == CHOOSE j \in 1..Len(s) : s[j] = e
Without(s, e) == SelectSeq(s, LAMBDA x : x # e)
Index(s, e) == IF e = 0 THEN -1 ELSE IdxOf(s, e) - 1
RECURSIVE Depth(_, _)
Depth(p, e) == IF p[e] = 0 THEN 0 ELSE 1 + Depth(p, p[e])
Observed(s, p, k) ==
  [items |-> s, parents |-> [j \in 1..Len(s) |-> Index(s, p[s[j]])],
   children |-> [j \in 1..Len(s) |-> [i \in 1..Len(k[s[j]]) |-> Index(s, k[s[j]][i])]],
   roots |-> SelectSeq([j \in 1..Len(s) |-> j - 1], LAMBDA j : p[s[j + 1]] = 0),
   levels |-> [j \in 1..Len(s) |-> Depth(p, s[j])]]
State == Observed(items, par, kids)
View == <<items, par, kids, made>>
RECURSIVE Above(_, _)
Above(p, e) == IF e = 0 THEN {} ELSE {e} \cup Above(p, p[e])
Init == /\ items = <<>> /\ par = [e \in Ids |-> 0] /\ kids = [e \in Ids |-> <<>>]
        /\ made = 0 /\ act = [op |-> "init"]
\* how: -2 without parent, -1 the element before, otherwise the index of the parent
AppendOp(how) ==
  /\ N < MaxN /\ made < Makes /\ how < N /\ made' = made + 1
  /\ LET e == made + 1
         p == IF how = -2 \/ N = 0 THEN 0 ELSE IF how = -1 THEN items[N] ELSE items[how + 1]
     IN /\ items' = Append(items, e) /\ par' = [par EXCEPT ![e] = p]
        /\ kids' = IF p = 0 THEN kids ELSE [kids EXCEPT ![p] = Append(@, e)]
        /\ act' = [op |-> "append", how |-> how, e |-> e]
Extend(c, p) ==
  /\ c # p /\ c < N /\ p < N /\ items[c + 1] \notin Above(par, items[p + 1])
  /\ LET ec == items[c + 1] ep == items[p + 1] IN
     /\ par' = [par EXCEPT ![ec] = ep]
     /\ kids' = [e \in Ids |-> IF e = ep THEN Append(Without(kids[e], ec), ec)
                              ELSE Without(kids[e], ec)]
  /\ UNCHANGED <<items, made>> /\ act' = [op |-> "extend", c |-> c, p |-> p]
Delete(k) ==
  /\ k < N
  /\ LET e == items[k + 1] IN
     /\ items' = Without(items, e)
     /\ par' = [x \in Ids |-> IF x = e \/ par[x] = e THEN 0 ELSE par[x]]
     /\ kids' = [x \in Ids |-> IF x = e THEN <<>> ELSE Without(kids[x], e)]
  /\ UNCHANGED made /\ act' = [op |-> "delete", k |-> k]
Next == \/ \E how \in -2..(MaxN - 1) : AppendOp(how)
        \/ \E c, p \in 0..(MaxN - 1) : Extend(c, p)
        \/ \E k \in 0..(MaxN - 1) : Delete(k)
Spec == Init /\ [][Next]_vars
\* larger trees, only built up
Grow == Init /\ [][\E how \in -1..(MaxN - 1) : AppendOp(how)]_vars
Linked == \A e, p \in Ids : (par[e] = p) <=>
             (Cardinality({j \in 1..Len(kids[p]) : kids[p][j] = e}) = 1)
SomeRoot == N > 0 => Len(Observed(items, par, kids).roots) > 0
Emit == PrintT(ToJson([pre |-> State @@ [made |-> made], act |-> act',
                       post |-> State' @@ [made |-> made']]))
=============================================================================
