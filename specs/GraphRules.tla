----------------------------- MODULE GraphRules -----------------------------
(* How the Gaussians of a mixture grow into a tree: w[c][p] is how much the end *)
(* point of c belongs to p.  The root is given; in every round the children     *)
(* whose k-th best choice is part of the tree already are adopted, for the least *)
(* such k: all of them if it is their best choice, otherwise only the one which  *)
(* belongs most to its choice.                                                   *)
EXTENDS Integers, Sequences, FiniteSets
None == 0
Nodes(w) == 1..Len(w)
\* the k-th best choice of c (weights are distinct)
Better(w, c, p) == {q \in Nodes(w) \ {c, p} : w[c][q] > w[c][p]}
Choice(w, c, k) == CHOOSE p \in Nodes(w) \ {c} : Cardinality(Better(w, c, p)) = k - 1
Ready(w, tree, k) == {c \in Nodes(w) \ tree : Choice(w, c, k) \in tree}
Level(w, tree) == CHOOSE k \in 1..(Len(w) - 1) : Ready(w, tree, k) # {} /\
                     \A j \in 1..(k - 1) : Ready(w, tree, j) = {}
Adopted(w, tree) ==
  LET k == Level(w, tree) r == Ready(w, tree, k) IN
  IF k = 1 \/ Cardinality(r) = 1 THEN r
  ELSE {CHOOSE c \in r : \A d \in r : w[c][Choice(w, c, k)] >= w[d][Choice(w, d, k)]}
RECURSIVE Grow(_, _, _)
Grow(w, tree, parent) ==
  IF tree = Nodes(w) THEN parent
  ELSE LET a == Adopted(w, tree) k == Level(w, tree) IN
       Grow(w, tree \cup a, [c \in Nodes(w) |-> IF c \in a THEN Choice(w, c, k) ELSE parent[c]])
Built(w, root) == Grow(w, {root}, [c \in Nodes(w) |-> None])
\* ---- what any such tree is
RECURSIVE DepthFrom(_, _, _)
DepthFrom(parent, c, n) == IF parent[c] = None THEN 0
                           ELSE IF n = 0 THEN 1000 ELSE 1 + DepthFrom(parent, parent[c], n - 1)
Depth(parent, c) == DepthFrom(parent, c, Len(parent))
IsTree(parent, root) == /\ parent[root] = None
                        /\ \A c \in 1..Len(parent) : c # root => parent[c] # None
                        /\ \A c \in 1..Len(parent) : Depth(parent, c) < Len(parent)
=============================================================================
