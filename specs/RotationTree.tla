---------------------------- MODULE RotationTree ----------------------------
(* A tree of directions in the plane (ticks, N per turn): structure, edits and *)
(* the weighted mean, which turns along every branch by its share of weight.   *)
(* Nodes are 0..Max-1 in order of creation, 0 is the root.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Max, Dirs, Weights, WithSequences
VARIABLES cnt, par, dir, act      \* cnt = 0: no root yet; par, dir: functions on 0..Max-1
vars == <<cnt, par, dir, act>>
View == <<cnt, par, dir>>
Ids == 0..(Max - 1)
Live == 0..(cnt - 1)
WrapT(a) == LET m == a % N IN IF m > N \div 2 THEN m - N ELSE m
Opposite(a, b) == WrapT(a - b) = N \div 2
RECURSIVE Level(_), Path(_)
Level(n) == IF n = 0 THEN 0 ELSE 1 + Level(par[n])
Path(n) == IF n = 0 THEN 0 ELSE Path(par[n]) + WrapT(dir[n] - dir[par[n]])
Kids(n) == {c \in Live : c # 0 /\ par[c] = n}
RECURSIVE Below(_)
Below(n) == Kids(n) \cup UNION {Below(c) : c \in Kids(n)}
Seq1(f) == [k \in 1..Max |-> f[k - 1]]
State == [cnt |-> cnt, par |-> Seq1(par), dir |-> Seq1(dir),
          level |-> [k \in 1..Max |-> IF k <= cnt THEN Level(k - 1) ELSE -1],
          kids |-> [k \in 1..Max |-> IF k <= cnt THEN Kids(k - 1) ELSE {}],
          below |-> [k \in 1..Max |-> IF k <= cnt THEN Below(k - 1) ELSE {}]]
Init == /\ cnt = 0 /\ par = [i \in Ids |-> -1] /\ dir = [i \in Ids |-> -1]
        /\ act = [op |-> "init"]
Same == UNCHANGED <<cnt, par, dir>>
SetRoot(d) == /\ cnt = 0 /\ cnt' = 1 /\ dir' = [dir EXCEPT ![0] = d] /\ UNCHANGED par
              /\ act' = [op |-> "set_root", d |-> d, out |-> "ok"]
AddNode(p, d) == /\ cnt < Max /\ p \in Live /\ ~Opposite(d, dir[p])
                 /\ cnt' = cnt + 1 /\ par' = [par EXCEPT ![cnt] = p]
                 /\ dir' = [dir EXCEPT ![cnt] = d]
                 /\ act' = [op |-> "add_node", p |-> p, d |-> d, out |-> "ok"]
\* refused requests
AddExisting(n, p) == /\ {n, p} \subseteq Live /\ Same
                     /\ act' = [op |-> "add_existing", n |-> n, p |-> p, out |-> "ValueError"]
AddZero(p) == /\ cnt < Max /\ p \in Live /\ Same
              /\ act' = [op |-> "add_zero", p |-> p, out |-> "ValueError"]
AddNan(p) == /\ cnt < Max /\ p \in Live /\ Same
              /\ act' = [op |-> "add_nan", p |-> p, out |-> "ValueError"]
AddOrphan == /\ cnt > 0 /\ cnt < Max /\ Same
             /\ act' = [op |-> "add_orphan", out |-> "ValueError"]
AddUnknown == /\ cnt > 0 /\ cnt < Max /\ Same
             /\ act' = [op |-> "add_unknown_parent", out |-> "KeyError"]
BadWeights == /\ cnt > 0 /\ Same
             /\ act' = [op |-> "mean_length_mismatch", out |-> "ValueError"]
SetDirection(n, d) ==
   /\ n \in Live /\ d # dir[n]
   /\ (IF n = 0 THEN TRUE ELSE ~Opposite(d, dir[par[n]])) /\ \A c \in Kids(n) : ~Opposite(d, dir[c])
   /\ dir' = [dir EXCEPT ![n] = d] /\ UNCHANGED <<cnt, par>>
   /\ act' = [op |-> "set_direction", n |-> n, d |-> d, out |-> "ok"]
\* a sequence <<d0, d1, ..., dk>> below p: with a common parent d0 is p's direction
AddSequence(p, ds, common) ==
  LET extra == IF common THEN Tail(ds) ELSE ds IN
  /\ WithSequences /\ p \in Live /\ cnt + Len(extra) <= Max
  /\ \A k \in 1..(Len(ds) - 1) : ~Opposite(ds[k], ds[k + 1])
  /\ ~Opposite(dir[p], Head(extra))
  /\ IF common /\ ds[1] # dir[p]
     THEN /\ Same
          /\ act' = [op |-> "add_sequence", p |-> p, ds |-> ds, common |-> common, out |-> "ValueError"]
     ELSE /\ cnt' = cnt + Len(extra)
          /\ par' = [i \in Ids |-> IF i = cnt THEN p
                       ELSE IF i > cnt /\ i < cnt + Len(extra) THEN i - 1 ELSE par[i]]
          /\ dir' = [i \in Ids |-> IF i >= cnt /\ i < cnt + Len(extra)
                                   THEN extra[i - cnt + 1] ELSE dir[i]]
          /\ act' = [op |-> "add_sequence", p |-> p, ds |-> ds, common |-> common, out |-> "ok"]
FromSequence(ds) ==
  /\ WithSequences /\ cnt = 0 /\ Len(ds) <= Max
  /\ \A k \in 1..(Len(ds) - 1) : ~Opposite(ds[k], ds[k + 1])
  /\ cnt' = Len(ds) /\ par' = [i \in Ids |-> IF i > 0 /\ i < Len(ds) THEN i - 1 ELSE par[i]]
  /\ dir' = [i \in Ids |-> IF i < Len(ds) THEN ds[i + 1] ELSE dir[i]]
  /\ act' = [op |-> "from_sequence", ds |-> ds, out |-> "ok"]
\* ---- the weighted mean: w[k] quarters on node k-1; result in quarter ticks
RECURSIVE SumTo(_, _)
SumTo(w, k) == IF k = 0 THEN 0 ELSE SumTo(w, k - 1) + w[k] * Path(k - 1)
MeanOf(w) == (4 * dir[0] + SumTo(w, Len(w))) % (4 * N)
Mean(w) == /\ Len(w) = cnt /\ cnt > 0 /\ Same
           /\ act' = [op |-> "mean", w |-> w, out |-> MeanOf(w)]
\* a vector at tick v turned by the rotation from the root direction to the mean
Carry(w, v, inv) ==
  /\ Len(w) = cnt /\ cnt > 0 /\ Same
  /\ (MeanOf(w) - 4 * dir[0]) % (4 * N) # 2 * N
  /\ act' = [op |-> "carry", w |-> w, v |-> v, inv |-> inv,
             out |-> (4 * v + (IF inv THEN -1 ELSE 1) * (MeanOf(w) - 4 * dir[0])) % (4 * N)]
SomeSeqs == [1..2 -> Dirs] \cup [1..3 -> Dirs]
Next == \/ \E d \in Dirs : SetRoot(d)
        \/ \E p \in Live, d \in Dirs : AddNode(p, d)
        \/ \E n, p \in Live : AddExisting(n, p)
        \/ \E p \in Live : AddZero(p) \/ AddNan(p)
        \/ AddOrphan \/ AddUnknown \/ BadWeights
        \/ \E n \in Live, d \in Dirs : SetDirection(n, d)
        \/ \E p \in Live, ds \in SomeSeqs, c \in BOOLEAN : AddSequence(p, ds, c)
        \/ \E ds \in SomeSeqs : FromSequence(ds)
        \/ \E w \in Weights : Mean(w)
        \/ \E w \in Weights, inv \in BOOLEAN : w[1] = 1 /\ Carry(w, 5, inv)
Spec == Init /\ [][Next]_vars
\* ---- properties of the design
Tree == \A n \in Live : n = 0 \/ par[n] \in 0..(n - 1)
OneHot == \A w \in Weights : \A n \in Live :
            (Len(w) = cnt /\ w[n + 1] = 4) => MeanOf(w) = (4 * dir[n]) % (4 * N)
NothingLost == Below(0) = Live \ {0} \/ cnt = 0
Refused == [][act'.op \in {"add_existing", "add_zero", "add_nan", "add_orphan",
                          "add_unknown_parent", "mean", "carry"} => UNCHANGED <<cnt, par, dir>>]_vars
Emit == PrintT(ToJson([pre |-> State, act |-> act', post |-> State']))
=============================================================================
