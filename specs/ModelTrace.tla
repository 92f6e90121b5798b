---------------------------- MODULE ModelTrace ----------------------------
EXTENDS Model, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
vars == <<t, i, s>>
Tr == Traces[t]
Ev == Tr.events[i]
Fresh(k) == None

Init == t = 1 /\ i = 1 /\ s = Fresh(1)
Report(bad) == IF bad = {} THEN TRUE ELSE PrintT(ToJson([reject |-> Tr.id, event |-> i, clauses |-> bad]))
\* a trace that was not judged like expected ends: what follows would be judged against the wrong state
Next == /\ t <= Len(Traces)
        /\ IF i <= Len(Tr.events)
           THEN LET bad == IF Enabled(s, Ev.op) THEN Clauses(s, Ev.op, Ev.obs) ELSE {"ANY.enabled"} IN
                /\ Report(bad)
                /\ IF bad = {} THEN s' = Apply(s, Ev.op) /\ i' = i + 1 /\ t' = t
                   ELSE t' = t + 1 /\ i' = 1 /\ s' = Fresh(t + 1)
           ELSE t' = t + 1 /\ i' = 1 /\ s' = Fresh(t + 1)
Spec == Init /\ [][Next]_vars
===========================================================================
