---------------------------- MODULE MixtureGraph ----------------------------
(* The growing of the tree of Gaussians, round by round, over given tables of   *)
(* weights (file TABLES) and every root.                                        *)
EXTENDS GraphRules, TLC, Json, IOUtils
Tables == JsonDeserialize(IOEnv.TABLES).tables
VARIABLES w, root, tree, parent
vars == <<w, root, tree, parent>>
Init == /\ w \in {Tables[k] : k \in 1..Len(Tables)}
        /\ root \in Nodes(w)
        /\ tree = {root}
        /\ parent = [c \in Nodes(w) |-> None]
Next == /\ tree # Nodes(w)
        /\ LET a == Adopted(w, tree) k == Level(w, tree) IN
           /\ tree' = tree \cup a
           /\ parent' = [c \in Nodes(w) |-> IF c \in a THEN Choice(w, c, k) ELSE parent[c]]
        /\ UNCHANGED <<w, root>>
        /\ (tree' = Nodes(w) => PrintT(ToJson([w |-> w, root |-> root, parent |-> parent'])))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* everything in the tree hangs, over its parents, at the root; nothing else has a parent
Rooted == \A c \in Nodes(w) :
   /\ c \in tree /\ c # root => parent[c] \in tree /\ Depth(parent, c) < Len(w)
   /\ c \notin tree => parent[c] = None
\* no child is adopted while a better choice of it is in the tree
Wanted == [][\A c \in tree' \ tree : Better(w, c, parent'[c]) \cap tree = {}]_vars
Same == tree = Nodes(w) => parent = Built(w, root)
Grows == [][Cardinality(tree') > Cardinality(tree) /\ \A c \in tree : parent'[c] = parent[c]]_vars
Done == <>(tree = Nodes(w))
=============================================================================
