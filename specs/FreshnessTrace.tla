-------------------------- MODULE FreshnessTrace --------------------------
EXTENDS Freshness, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLE t
Clause(name, holds) == IF holds THEN {} ELSE {name}
Tr == Traces[t]
Bad == Clause("C11.fresh", Fresh(Tr.draws, 1)) \cup
       Clause("C11.centred", \A i \in 1..Len(Tr.below) :
                 Plausible(Tr.below[i].count, Tr.below[i].n, Tr.below[i].permille, Tr.below[i].bound)) \cup
       Clause("C11.independent", \A i \in 1..Len(Tr.agree) :
                 Plausible(Tr.agree[i].count, Tr.agree[i].n, 500, Tr.agree[i].bound)) \cup
       Clause("ANY.runs", Tr.ok)
Init == t = 1
Next == /\ t <= Len(Traces) /\ t' = t + 1
        /\ IF Bad = {} THEN TRUE ELSE PrintT(ToJson([reject |-> Tr.id, event |-> 1, clauses |-> Bad]))
Spec == Init /\ [][Next]_t
===========================================================================
