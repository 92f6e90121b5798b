----------------------- MODULE SamplerProtocolTrace -----------------------
(* Validates recorded histories of real samplers against the contract.     *)
(* Every trace is processed to its end; every violated clause is reported  *)
(* as <<"REJECT", trace id, event index, clauses>>.                        *)
EXTENDS SamplerProtocol, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES t, i, s
vars == <<t, i, s>>

Ev == Traces[t].events[i]
Cfg == Traces[t].cfg

Start(k) == IF k > Len(Traces) THEN InitState(<<>>, 0)
            ELSE InitState(Traces[k].cfg, Traces[k].vars)

Init == t = 1 /\ i = 1 /\ s = Start(1)

Report(bad) == bad = {} \/ PrintT(ToJson([reject |-> Traces[t].id, event |-> i, clauses |-> bad]))

Next ==
    /\ t <= Len(Traces)
    /\ IF i <= Len(Traces[t].events)
       THEN /\ Report(Clauses(Cfg, s, Ev.op, Ev.obs))
            /\ s' = Apply(Cfg, s, Ev.op, Ev.obs)
            /\ i' = i + 1 /\ t' = t
       ELSE t' = t + 1 /\ i' = 1 /\ s' = Start(t + 1)

Spec == Init /\ [][Next]_vars
\* every recorded event was consumed
Consumed == TLCGet("stats").diameter >= Len(Traces)
=========================================================================
