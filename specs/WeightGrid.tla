----------------------------- MODULE WeightGrid -----------------------------
(* Every list of up to MaxLen values of a grid: the sharing rules keep their    *)
(* guarantees, and the code is asked for the same lists.                        *)
EXTENDS Weights, TLC, Json
CONSTANTS Grid, Distances, MaxLen
VARIABLES ws, ds
vars == <<ws, ds>>
Init == ws = <<>> /\ ds = <<>>
Next == /\ Len(ws) < MaxLen
        /\ \/ ds = <<>> /\ \E v \in Grid : ws' = Append(ws, v) /\ ds' = <<>>
           \/ ws = <<>> /\ Len(ds) < MaxLen /\ \E v \in Distances : ds' = Append(ds, v) /\ ws' = <<>>
Spec == Init /\ [][Next]_vars
LimitedKeeps == ws # <<>> => LET r == Limited(ws) IN
     /\ AtMostOne(r) /\ OrderKept(ws, r) /\ Near(SumSeq(r), LimitedTotal(ws), 5)
     /\ \A k \in Idx(ws) : ws[k] = 0 => r[k] = 0
ClosenessKeeps == ds # <<>> =>
     /\ AtMostOne(Closeness(ds, S, 1, TRUE)) /\ OrderTurned(ds, Closeness(ds, S, 1, TRUE))
     /\ (\E k \in Idx(ds) : ds[k] <= S) => IsPartition(Closeness(ds, S, 1, FALSE))
OcclusionKeeps == ds # <<>> => LET o == [k \in Idx(ds) |-> ds[k] - 12500] IN
     IsPartition(Visible(o)) /\ OrderKept(o, Visible(o))
Emit == PrintT(ToJson(
  IF ws' # <<>> THEN [kind |-> "w", list |-> ws', limited |-> Limited(ws'), total |-> LimitedTotal(ws')]
  ELSE [kind |-> "d", list |-> ds', close1 |-> Closeness(ds', S, 1, TRUE),
        close2 |-> Closeness(ds', S, 2, TRUE), free |-> Closeness(ds', S, 1, FALSE),
        occl |-> Visible([k \in Idx(ds') |-> ds'[k] - 12500]), outside |-> Outside(ds')]))
=============================================================================
