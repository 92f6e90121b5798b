---------------------------- MODULE BatchesTrace ----------------------------
EXTENDS Batches, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, log
vars == <<t, i, log>>
Tr == Traces[t]
Event == Tr.events[i]
Report(clauses) == IF clauses = {} THEN TRUE
                   ELSE PrintT(ToJson([reject |-> Tr.id, event |-> i, clauses |-> clauses]))

Start == t = 1 /\ i = 1 /\ log = IF Len(Traces) = 0 \/ Traces[1].what # "streams" THEN <<>>
                                 ELSE [k \in DOMAIN Traces[1].cfg |-> <<>>]
Advance == /\ t' = t + 1 /\ i' = 1
           /\ log' = IF t + 1 > Len(Traces) \/ Traces[t + 1].what # "streams" THEN <<>>
                     ELSE [k \in DOMAIN Traces[t + 1].cfg |-> <<>>]

Request == /\ Tr.what = "request" /\ Advance
           /\ Report(Clause("C17.invalid-arguments", Tr.accepted = Accepts(Tr.request)))
Step == /\ Tr.what = "streams" /\ i <= Len(Tr.events)
        /\ i' = i + 1 /\ t' = t
        /\ IF Event.op # "draw" THEN log' = log
           ELSE /\ log' = [log EXCEPT ![Event.stream] = Append(@, Event.obs.rows)]
                /\ Report(BatchClauses(Tr.cfg[Event.stream], Event.obs) \cup
                          SeedClauses(Tr.cfg, log, Event.stream, Event.obs, Event.before, Event.after))
End == /\ Tr.what = "streams" /\ i > Len(Tr.events) /\ Advance
       /\ Report(PairClauses(Tr.cfg, log) \cup UNION {StreamClauses(Tr.cfg[k], log[k]) : k \in DOMAIN log})
Next == t <= Len(Traces) /\ (Request \/ Step \/ End)
Spec == Start /\ [][Next]_vars
=============================================================================
