----------------------------- MODULE BaseAvoider -----------------------------
(* An avoider keeps its dynamics and its obstacles.  Evaluating it avoids the    *)
(* obstacles it has now, from the velocity its dynamics have now at the position *)
(* asked for - once, and without changing anything.                              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Places, Obstacles, MaxLen
VARIABLES dyn, attr, list, last, act
vars == <<dyn, attr, list, last, act>>
Vel(d, a, p) == LET e == <<a[1] - p[1], a[2] - p[2]>> IN
                IF d = 1 THEN e ELSE <<2 * e[2], -2 * e[1]>>
\* what the avoider under test does with its arguments
RECURSIVE Push(_, _)
Push(l, n) == IF l = <<>> THEN 0 ELSE n * Head(l) + Push(Tail(l), n + 1)
Avoid(p, v, l) == <<3 * v[1] + Push(l, 1) * p[2], v[2] - Push(l, 2) + p[1]>>
Nothing == [at |-> <<>>, vel |-> <<>>, obs |-> <<>>, out |-> <<>>]
State == [dyn |-> dyn, attr |-> attr[dyn], attrs |-> attr, list |-> list, last |-> last]
View == <<dyn, attr, list, last>>
Init == /\ dyn = 1 /\ attr = <<Places[1], Places[1]>> /\ list = <<>> /\ last = Nothing
        /\ act = [op |-> "init"]
Evaluate(k) == LET p == Places[k] v == Vel(dyn, attr[dyn], p) IN
    /\ last' = [at |-> p, vel |-> v, obs |-> list, out |-> Avoid(p, v, list)]
    /\ UNCHANGED <<dyn, attr, list>> /\ act' = [op |-> "evaluate", p |-> p]
Swap == /\ dyn' = 3 - dyn /\ UNCHANGED <<attr, list, last>> /\ act' = [op |-> "swap"]
MoveAttractor(k) == /\ attr[dyn] # Places[k] /\ attr' = [attr EXCEPT ![dyn] = Places[k]]
    /\ UNCHANGED <<dyn, list, last>> /\ act' = [op |-> "attract", to |-> Places[k]]
Add1(o) == /\ Len(list) < MaxLen /\ list' = Append(list, o) /\ UNCHANGED <<dyn, attr, last>>
           /\ act' = [op |-> "add", o |-> o]
Replace(l) == /\ l # list /\ list' = l /\ UNCHANGED <<dyn, attr, last>>
              /\ act' = [op |-> "replace", l |-> l]
Next == \/ \E k \in 1..Len(Places) : Evaluate(k) \/ MoveAttractor(k)
        \/ Swap \/ \E o \in Obstacles : Add1(o) \/ Replace(<<o>>)
        \/ Replace(<<>>)
Spec == Init /\ [][Next]_vars
\* evaluating again gives the same
Pure == [][act'.op = "evaluate" => dyn' = dyn /\ attr' = attr /\ list' = list]_vars
Emit == PrintT(ToJson([pre |-> State, act |-> act', post |-> State']))
==============================================================================
