--------------------------- MODULE CoexistTrace ---------------------------
(* Validates recorded interleavings.  Traces of single samplers come first; *)
(* what is learned from them about outcomes is kept for all later traces.   *)
EXTENDS Coexist, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s, by
vars == <<t, i, s, by>>

Tr == Traces[t]
Ev == Tr.events[i]
Start(k) == IF k > Len(Traces) THEN <<>> ELSE [j \in 1..Len(Traces[k].cfg) |-> NewSlot]
By(k) == IF k > Len(Traces) THEN "" ELSE Traces[k].by

Put(f, key, x) == [k \in DOMAIN f \cup {key} |-> IF k = key THEN (IF key \in DOMAIN f THEN f[key] ELSE {}) \cup {x} ELSE f[k]]

\* register 1: outcomes of samplers that ran alone, register 2: outcomes by seedless key
Init == t = 1 /\ i = 1 /\ s = Start(1) /\ by = By(1) /\ TLCSet(1, <<>>) /\ TLCSet(2, <<>>)

Report(bad) == IF bad = {} THEN TRUE ELSE PrintT(ToJson([reject |-> Tr.id, event |-> i, clauses |-> bad]))
Learn ==
    IF Ev.op.op = "step" /\ Ev.obs.ok
    THEN /\ IF Len(Tr.cfg) = 1 THEN TLCSet(1, Put(TLCGet(1), Key(Tr.cfg, s, Ev.op.slot), Ev.obs.out)) ELSE TRUE
         /\ TLCSet(2, Put(TLCGet(2), Seedless(Tr.cfg, s, Ev.op.slot), <<Tr.cfg[Ev.op.slot].seed, Ev.obs.out>>))
    ELSE TRUE

Next ==
    /\ t <= Len(Traces)
    /\ IF i <= Len(Tr.events)
       THEN /\ Report(Clauses(Tr.cfg, s, Ev.op, Ev.obs, by, Tr.initial) \cup
                      Outcomes(Tr.cfg, s, Ev.op, Ev.obs, TLCGet(1), TLCGet(2)))
            /\ Learn
            /\ s' = Apply(s, Ev.op, Ev.obs) /\ by' = Ev.obs.by
            /\ i' = i + 1 /\ t' = t
       ELSE t' = t + 1 /\ i' = 1 /\ s' = Start(t + 1) /\ by' = By(t + 1)
Spec == Init /\ [][Next]_vars
===========================================================================
