-------------------------- MODULE ConstructionTrace --------------------------
(* Validates recorded constructions (and the steps after them).               *)
EXTENDS Construction, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s, retried
vars == <<t, i, s, retried>>
Tr == Traces[t]
Event == Tr.events[i]
Report(clauses) == IF clauses = {} THEN TRUE
                   ELSE PrintT(ToJson([reject |-> Tr.id, event |-> i, clauses |-> clauses]))
At(k) == IF k > Len(Traces) THEN New("") ELSE New(Traces[k].values)
Init == t = 1 /\ i = 1 /\ s = At(1) /\ retried = FALSE
Asked == Request(Tr.request, IF retried THEN "retry" ELSE Event.op)
Next == /\ t <= Len(Traces)
        /\ IF i <= Len(Tr.events)
           THEN /\ Report(Clauses(Tr.kind, s, Asked, Event.op, Event.obs, Tr.initial, Event.obs.elsewhereBefore) \cup
                          Clause("C37.order", Enabled(s, Event.op)))
                /\ s' = Apply(s, Event.op, Event.obs)
                /\ retried' = (retried \/ Event.op = "retry") /\ i' = i + 1 /\ t' = t
           ELSE t' = t + 1 /\ i' = 1 /\ s' = At(t + 1) /\ retried' = FALSE
Spec == Init /\ [][Next]_vars
==============================================================================
