-------------------------- MODULE VariablesTrace --------------------------
EXTENDS Variables, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
vars == <<t, i, s>>
Tr == Traces[t]
Ev == Tr.events[i]

Init == t = 1 /\ i = 1 /\ s = <<>>
Report(bad) == IF bad = {} THEN TRUE ELSE PrintT(ToJson([reject |-> Tr.id, event |-> i, clauses |-> bad]))
Next == /\ t <= Len(Traces)
        /\ IF i <= Len(Tr.events)
           THEN /\ Assert(Enabled(s, Ev.op), "not enabled")
                /\ Report(Clauses(Tr.shape, s, Ev.op, Ev.obs))
                /\ s' = Apply(s, Ev.op) /\ i' = i + 1 /\ t' = t
           ELSE t' = t + 1 /\ i' = 1 /\ s' = <<>>
Spec == Init /\ [][Next]_vars
===========================================================================
