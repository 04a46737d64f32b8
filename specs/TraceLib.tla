------------------------------ MODULE TraceLib ------------------------------
(* Reading recorded executions.  A trace specification defines Bad(i), the set *)
(* of names of the clauses record i violates, and steps through the records.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Payload == JsonDeserialize(IOEnv.TRACE)
Recs == Payload.records
Len0 == Len(Recs)
\* helper: the clause name if the condition fails
Clause(name, cond) == IF cond THEN {} ELSE {name}
Report(i, bad) == bad = {} \/ PrintT(ToJson([i |-> i, bad |-> bad]))
Final(i) == i # Len0 \/ PrintT(ToJson([total |-> Len0]))
=============================================================================
