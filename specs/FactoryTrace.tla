---------------------------- MODULE FactoryTrace ----------------------------
EXTENDS Factory, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLE t
Clause(name, holds) == IF holds THEN {} ELSE {name}
Request(r) == LET o == Outcome(r.method, r.given)
              IN IF "error" \in DOMAIN o \/ "error" \in DOMAIN r.outcome
                 THEN Clause("C16.refuses", r.outcome = o)
                 ELSE Clause("C16.class", r.outcome.class = o.class) \cup
                      Clause("C16.arguments", r.outcome.arguments = o.arguments) \cup
                      Clause("C16.behaves-as-constructed-directly", r.same = "yes" \/ r.same = "not run")
Member(r) == Clause("C16.burn-in", r.burnIn = Classified(r.method).burnIn) \cup
             Clause("C16.supported", r.supported \in Classified(r.method).supported)
Tr == Traces[t]
Bad == IF Tr.what = "request" THEN Request(Tr) ELSE Member(Tr)
Init == t = 1
Next == /\ t <= Len(Traces) /\ t' = t + 1
        /\ IF Bad = {} THEN TRUE ELSE PrintT(ToJson([reject |-> Tr.id, event |-> 1, clauses |-> Bad]))
Spec == Init /\ [][Next]_t
=============================================================================
